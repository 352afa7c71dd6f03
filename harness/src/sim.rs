//! Interpreter of the tables: what the specification says about one concrete input.
//!
//! The abstract lengths of a table are paired with concrete counters, so that "more than MaxLen"
//! becomes one particular number.
use crate::table::*;

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Open,
    Fin(usize),
    Err { pos: usize, kind: u8, byte: u8 },
    /// From here on the specification says nothing about the contents.
    Sink(usize),
}

/// What has to be observed on one message.
#[derive(Clone, Debug)]
pub struct Exp {
    pub toks: Vec<u64>,
    /// Tokens due once i bytes have been consumed.
    pub cum: Vec<u32>,
    /// State before byte i.
    pub loc: Vec<u32>,
    pub last: u32,             // the state after all of it
    pub end: End,
    pub plain: Vec<u32>,       // which tokens are the byte itself
}

pub fn tok(name: u8, v: u64) -> u64 { (name as u64) << 56 | v }
pub fn tname(t: u64) -> u8 { (t >> 56) as u8 }
pub fn tval(t: u64) -> u64 { t & 0x00FF_FFFF_FFFF_FFFF }

#[derive(Clone)]
pub struct Sim<'t> {
    pub t: &'t Table,
    pub st: u32,
    pub len: u64,
    pub pad: u64,
    regs: [u64; 64],
    pub toks: Vec<u64>,
    /// Tokens that are the byte itself, as it was read.
    pub plain: Vec<u32>,
    pub parts: usize,
    pub answers: Vec<Option<u64>>,
}

impl<'t> Sim<'t> {
    pub fn new(t: &'t Table, st: u32, len: u64, answers: &[Option<u64>]) -> Sim<'t> {
        let mut s = Sim { t, st, len, pad: 0, regs: [0; 64], toks: vec![], plain: vec![], parts: 0,
                          answers: answers.to_vec() };
        s.settle();
        s
    }

    pub fn state(&self) -> &'t State { &self.t.states[self.st as usize] }

    fn emit(&mut self, name: u8, v: i32, b: u8) {
        let val = match v {
            -1 => b as u64,
            -2 => b as u64 + 32,
            -3 => (b - 48) as u64,
            -4 => (b % 128) as u64,
            -5 => (b / 128) as u64,
            v => v as u64,
        };
        match self.t.class[name as usize] {
            b'd' => { if v == -1 { self.plain.push(self.toks.len() as u32); } self.toks.push(tok(name, val)) },
            b'r' => {
                let base = self.t.base[name as usize];
                self.regs[name as usize] = self.regs[name as usize] * base + val;
                if name == R_LEN { self.len = self.len * base + val; }
            },
            _ => {
                self.toks.push(tok(name, 0));
                if let Some(args) = self.t.args.get(&name) {
                    for a in args {
                        self.toks.push(tok(T_ARG, self.regs[*a as usize]));
                        self.regs[*a as usize] = 0;
                    }
                }
                if name == CHUNK_BEGIN { self.len = 0; self.regs[R_LEN as usize] = 0; }
                if name == MULTIPART_BEGIN { self.parts += 1; }
            }
        }
    }

    /// Steps that need no byte.
    fn settle(&mut self) {
        loop {
            let s = self.state();
            match s.kind {
                Kind::Ask(ref a) => {
                    let n = if self.parts == 0 { None }
                            else { self.answers.get((self.parts - 1) % self.answers.len().max(1)).cloned().unwrap_or(None) };
                    match n {
                        None => self.st = a[0],
                        Some(n) => { self.len = n; self.st = a[1 + n.min(self.t.maxlen + 1) as usize]; }
                    }
                },
                Kind::Empty => {
                    for &(n, v) in &s.z { self.emit(n, v, 0); }
                    self.st = s.zn;
                },
                _ => return,
            }
        }
    }

    /// Consume a byte; returns the error kind.
    pub fn step(&mut self, b: u8) -> u8 {
        let s = self.state();
        let run = &s.runs[s.row[b as usize] as usize];
        if self.t.proto == 2 && s.is_start { self.len = 0; self.pad = 0; self.regs = [0; 64]; }
        let after = if s.cnt { self.len.saturating_sub(1) } else { self.len };
        if s.is_pad { self.pad = b as u64; }
        let o = if run.2.len() == 1 { &run.2[0] } else {
            let g = if after == self.t.maxlen { 4 }
                    else if after < self.pad { 1 } else if after == self.pad { 2 } else { 3 };
            run.2.iter().find(|o| o.guard == g).unwrap_or_else(|| panic!("guard {} {} in {:?}", g, b, s))
        };
        self.len = after;
        for &(n, v) in &o.toks { self.emit(n, v, b); }
        let mut next = o.next;
        if o.er == 0 {
            let nx = &self.t.states[next as usize];
            if self.t.proto == 1 && s.cnt && nx.len > self.t.maxlen && self.len == self.t.maxlen {
                next = nx.shrink;
            }
            if self.t.proto == 2 && nx.is_padding && !s.is_padding { self.len = self.pad; self.pad = 0; }
        }
        self.st = next;
        if o.er == 0 { self.settle(); }
        o.er
    }

    pub fn ended(&self) -> bool { self.state().kind == Kind::End }
}

pub fn expect(t: &Table, st: u32, len: u64, answers: &[Option<u64>], input: &[u8]) -> Exp {
    let mut sim = Sim::new(t, st, len, answers);
    let mut e = Exp { toks: vec![], cum: vec![sim.toks.len() as u32], loc: vec![], last: st, end: End::Open, plain: vec![] };
    if sim.ended() { e.end = End::Fin(0); }
    else {
        for (i, &b) in input.iter().enumerate() {
            e.loc.push(sim.st);
            let er = sim.step(b);
            e.cum.push(sim.toks.len() as u32);
            if er != 0 { e.end = End::Err { pos: i + 1, kind: er, byte: b }; break; }
            if sim.ended() {
                e.end = if sim.state().c == "Irregular" { End::Sink(i + 1) } else { End::Fin(i + 1) };
                break;
            }
        }
    }
    if e.loc.is_empty() { e.loc.push(st); }
    e.last = sim.st;
    e.toks = sim.toks;
    e.plain = sim.plain;
    e
}
