//! Generation of inputs from the transition tables.
use crate::rng::Rng;
use crate::sim::*;
use crate::table::*;
use std::collections::VecDeque;

#[derive(Clone, Debug, PartialEq)]
pub enum Init { Fresh, Head, Chunked, Multi(usize), Url(u64), H2 }

#[derive(Clone, Debug)]
pub struct Msg { pub init: Init, pub answers: Vec<Option<u64>>, pub input: Vec<u8> }

impl Msg {
    pub fn start(&self, t: &Table) -> (u32, u64) {
        match self.init {
            Init::Fresh => (t.init["fresh"], 0),
            Init::Head => (t.init["head"], 0),
            Init::Chunked => (t.init["chunked"], 0),
            Init::Multi(i) => (t.init[&format!("multi{}", i + 1)], 0),
            Init::Url(n) => (t.init[&format!("url{}", n.min(t.maxlen + 1))], n),
            Init::H2 => (t.init["h2"], 0),
        }
    }
    pub fn expect(&self, t: &Table) -> Exp {
        let (st, len) = self.start(t);
        expect(t, st, len, &self.answers, &self.input)
    }
}

#[derive(Clone)]
enum Edge { Init(String), Run(u32, u8, u8), Answer(u32, i64) }

/// A shortest way to every state.
pub struct Paths { edge: Vec<Option<Edge>> }

impl Paths {
    pub fn new(t: &Table) -> Paths {
        let mut edge: Vec<Option<Edge>> = vec![None; t.states.len()];
        let mut q = VecDeque::new();
        for (name, st) in &t.init_list {
            if edge[*st as usize].is_none() { edge[*st as usize] = Some(Edge::Init(name.clone())); q.push_back(*st); }
        }
        while let Some(s) = q.pop_front() {
            let st = &t.states[s as usize];
            let mut visit = |n: u32, e: Edge| if edge[n as usize].is_none() { edge[n as usize] = Some(e); q.push_back(n); };
            match st.kind {
                Kind::Ask(ref a) => for (i, n) in a.iter().enumerate() { visit(*n, Edge::Answer(s, i as i64 - 1)); },
                Kind::Empty => visit(st.zn, Edge::Answer(s, 0)),
                Kind::End => {},
                Kind::Normal => for (lo, hi, os) in &st.runs {
                    for o in os { if o.er == 0 && (o.guard == 0 || o.guard == 3) { visit(o.next, Edge::Run(s, *lo, *hi)); } }
                },
            }
        }
        Paths { edge }
    }

    pub fn to(&self, t: &Table, st: u32, r: &mut Rng) -> Option<Msg> {
        let mut bytes = vec![];
        let mut answers = vec![];
        let mut at = st;
        loop {
            match self.edge[at as usize].as_ref()? {
                Edge::Run(p, lo, hi) => { bytes.push(pick_byte(r, *lo, *hi)); at = *p; },
                Edge::Answer(p, a) => {
                    answers.push(match *a { -1 => None, a if a as u64 > t.maxlen => Some(t.maxlen + 1 + r.below(40)), a => Some(a as u64) });
                    at = *p;
                },
                Edge::Init(name) => {
                    bytes.reverse(); answers.reverse();
                    let init = parse_init(name, t, bytes.len() as u64, r);
                    return Some(Msg { init, answers, input: bytes });
                }
            }
        }
    }
}

fn parse_init(name: &str, t: &Table, n: u64, r: &mut Rng) -> Init {
    if name == "fresh" { Init::Fresh } else if name == "head" { Init::Head }
    else if name == "chunked" { Init::Chunked } else if name == "h2" { Init::H2 }
    else if let Some(i) = name.strip_prefix("multi") { Init::Multi(i.parse::<usize>().unwrap() - 1) }
    else { let k: u64 = name[3..].parse().unwrap();
           Init::Url(if k > t.maxlen { t.maxlen + 1 + n + r.below(20) } else { k }) }
}

pub fn pick_byte(r: &mut Rng, lo: u8, hi: u8) -> u8 {
    match r.below(8) { 0 => lo, 1 => hi, _ => r.range(lo, hi) }
}

pub const LENS: [u64; 46] = [0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 99, 100, 101,
    127, 128, 129, 160, 200, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097];

/// Numbers found in the source of the library.
pub static NUMS: std::sync::OnceLock<Vec<u64>> = std::sync::OnceLock::new();

pub fn some_len(r: &mut Rng, max: u64) -> u64 {
    if let Some(v) = NUMS.get() { if !v.is_empty() && r.chance(8) {
        let n = (*r.pick(v)).wrapping_add(r.below(3)).wrapping_sub(1);
        if n <= max { return n; }
    } }
    if r.chance(75) { r.below(24.min(max + 1)) } else { (*r.pick(&LENS)).min(max) }
}

pub struct WalkCfg { pub budget: usize, pub err: u64, pub stay: u64, pub words: u64, pub maxlen: u64 }

/// Extends `input` by a random walk of the machine.
pub fn walk(t: &Table, sim: &mut Sim, input: &mut Vec<u8>, r: &mut Rng, cfg: &WalkCfg, words: &[Vec<u8>]) {
    let end = input.len() + cfg.budget;
    // a walk favours one control location to linger in, and one word to insert
    let mut sticky = cfg.stay;
    let mut hold = 0usize;
    while input.len() < end && !sim.ended() {
        let s = sim.state();
        let b;
        if cfg.words > 0 && !words.is_empty() && !s.cnt && r.chance(cfg.words) {
            // some words are almost right: what begins like them must not pass for them
            let near = cfg.err > 0 || r.chance(20);
            let mut done = false;
            for _ in 0..4 {
                let mut w = r.pick(words).clone();
                if w.is_empty() { continue; }
                if near && r.chance(50) {
                    let i = if r.chance(50) { w.len() - 1 } else { r.usize(w.len()) };
                    w[i] = match r.below(4) { 0 => *r.pick(b"\r\n \t:;=,/-\"\\\0"), 1 => w[i] ^ 0x20, 2 => w[i] ^ (1 << r.below(8)), _ => r.below(256) as u8 };
                }
                let mut c = sim.clone();
                let mut k = 0;
                while k < w.len() && !c.ended() { k += 1; if c.step(w[k - 1]) != 0 { break; } }
                if k == w.len() && !c.ended() || near && (k > 4 || 2 * k > w.len()) {
                    input.extend_from_slice(&w);
                    *sim = c;
                    done = true;
                    break;
                }
            }
            if done { continue; }
        }
        if t.proto == 1 && s.c == "Len1" && r.chance(50) {
            // a chunk length
            let n = some_len(r, cfg.maxlen);
            let text = if r.chance(50) { format!("{:x}", n) } else { format!("{:X}", n) };
            for b in text.bytes() { input.push(b); if sim.step(b) != 0 || sim.ended() { return; } }
            continue;
        }
        if t.proto == 2 && s.c == "Len1" && r.chance(25) {
            let n = some_len(r, cfg.maxlen);
            for b in [(n >> 16) as u8, (n >> 8) as u8, n as u8] { input.push(b); sim.step(b); }
            continue;
        }
        if t.proto == 2 && !s.cnt {
            b = match &s.c[..] {
                "Len1" => if r.chance(99) { 0 } else { r.below(3) as u8 },
                "Len2" => if cfg.maxlen < 256 || r.chance(92) { 0 } else { r.below(cfg.maxlen / 256) as u8 },
                "Len3" => match r.below(10) { 0..=4 => r.below(20) as u8, 5 => 4, 6 => 5, 7 => 6, 8 => *r.pick(&[8, 9, 10, 0, 1, 13]),
                                              _ => r.below(256) as u8 },
                "Type" => if r.chance(90) { r.below(12) as u8 } else { r.below(256) as u8 },
                "Flags" => match r.below(6) { 0 => 0, 1 => 8, 2 => 0x20, 3 => 0x28, 4 => 0x2D, _ => r.below(256) as u8 },
                _ => r.below(256) as u8,
            };
        } else if t.proto == 2 && s.is_pad {
            b = match r.below(6) { 0 => 0, 1 => r.below(4) as u8, 2 => sim.len.saturating_sub(1).min(255) as u8,
                                   3 => sim.len.saturating_sub(1 + r.below(8)).min(255) as u8,
                                   4 => r.below(sim.len.min(255) + 1) as u8, _ => r.below(256) as u8 };
        } else {
            let mut choice = None;
            let want_stay = if hold > 0 { hold -= 1; true } else { r.chance(sticky) };
            for _ in 0..12 {
                let (lo, hi, os) = r.pick(&s.runs);
                let ok = os[0].er == 0;
                if !ok && !r.chance(cfg.err) { continue; }
                if ok && want_stay && !s.cnt && t.states[os[0].next as usize].c != s.c { continue; }
                choice = Some((*lo, *hi)); break;
            }
            let (lo, hi) = match choice { Some(c) => c, None => {
                let v: Vec<_> = s.runs.iter().filter(|x| x.2[0].er == 0).collect();
                if v.is_empty() { let x = r.pick(&s.runs); (x.0, x.1) } else { let x = r.pick(&v); (x.0, x.1) } } };
            b = pick_byte(r, lo, hi);
            if r.chance(1) { sticky = *r.pick(&[0, 20, 50, 80, 90, 97]); }
            if r.below(400) == 0 { hold = some_len(r, cfg.maxlen) as usize; }
        }
        input.push(b);
        if sim.step(b) != 0 { break; }
    }
}

pub fn random_init(t: &Table, r: &mut Rng, only: Option<&str>, maxlen: u64) -> (Init, Vec<Option<u64>>) {
    if t.proto == 2 { return (Init::H2, vec![]); }
    let ty = match only { Some(x) => x, None => *r.pick(&["head", "head", "chunked", "multi", "url"]) };
    match ty {
        "head" => (if r.chance(20) { Init::Fresh } else { Init::Head }, vec![]),
        "chunked" => (Init::Chunked, vec![]),
        "multi" => {
            let n = r.usize(4);
            let a = (0..n).map(|_| if r.chance(50) { None }
                else if r.chance(3) { Some(u64::MAX >> r.below(34)) } else { Some(some_len(r, maxlen)) }).collect();
            (Init::Multi(r.usize(t.boundaries.len())), a)
        },
        _ => (Init::Url(if r.chance(3) { u64::MAX >> r.below(34) } else if r.chance(40) { some_len(r, maxlen) } else { r.below(60) }), vec![]),
    }
}

/// A message from scratch.
pub fn random_msg(t: &Table, r: &mut Rng, only: Option<&str>, words: &[Vec<u8>], big: bool) -> Msg {
    let maxlen = if big { 4097 } else { 300 };
    let (init, answers) = random_init(t, r, only, maxlen);
    let mut m = Msg { init, answers, input: vec![] };
    let (st, len) = m.start(t);
    let mut sim = Sim::new(t, st, len, &m.answers);
    let cfg = WalkCfg {
        budget: if big { 2000 + r.usize(8000) } else { *r.pick(&[12, 40, 40, 120, 120, 400]) },
        err: *r.pick(&[0, 0, 0, 1, 4]),
        stay: *r.pick(&[0, 30, 60, 80, 92]),
        words: *r.pick(&[0, 4, 10, 30]),
        maxlen,
    };
    let mut input = vec![];
    let before = r.usize(6);
    if m.init == Init::Head && r.chance(20) { for _ in 0..before { let b = *r.pick(&[13, 10, 32, 9]); input.push(b); sim.step(b); } }
    walk(t, &mut sim, &mut input, r, &cfg, words);
    // what follows a finished message must not be touched
    if r.chance(50) { for _ in 0..r.usize(12) { input.push(r.below(256) as u8); } }
    m.input = input;
    m
}

/// A message of about n bytes: a part of it that ends in the state in which it began is repeated, or
/// one of its lengths is that long.
pub fn pumped(t: &Table, r: &mut Rng, only: Option<&str>, words: &[Vec<u8>], n: usize) -> Option<Msg> {
    let long = r.chance(25);
    let (mut init, answers) = random_init(t, r, only, if long { n as u64 } else { 40 });
    if let Init::Url(ref mut k) = init { *k = n as u64 + r.below(3) - 1 + if r.chance(30) { r.below(1 << 33) } else { 0 }; }
    let mut m = Msg { init, answers, input: vec![] };
    let (st, len) = m.start(t);
    let mut sim = Sim::new(t, st, len, &m.answers);
    let cfg = WalkCfg { budget: if long { n } else { *r.pick(&[20, 60, 150]) }, err: 0, stay: *r.pick(&[0, 30, 60]),
                        words: *r.pick(&[0, 4, 10]), maxlen: if long { n as u64 } else { 40 } };
    let mut input = vec![];
    if long && t.proto == 2 { let ty = r.below(11) as u8; let fl = *r.pick(&[0, 8, 0x20, 0x28]);
        for b in [(n >> 16) as u8, (n >> 8) as u8, n as u8, ty, fl, 0, 0, 0, 1] { input.push(b); sim.step(b); } }
    if long && t.proto == 1 && m.init == Init::Chunked {
        for b in format!("{:x}\r\n", n).bytes() { input.push(b); sim.step(b); } }
    walk(t, &mut sim, &mut input, r, &cfg, words);
    if long {
        let cfg = WalkCfg { budget: 60, ..cfg };
        if !sim.ended() { walk(t, &mut sim, &mut input, r, &cfg, words); }
        m.input = input;
        return Some(m);
    }
    // where the machine is before every byte
    let mut sim = Sim::new(t, st, len, &m.answers);
    let mut at = vec![];
    for &b in &input { if sim.ended() { break; } at.push(sim.st); if sim.step(b) != 0 { break; } }
    let mut pairs = vec![];
    for i in 0..at.len() { for j in i + 1..at.len() { if at[i] == at[j] { pairs.push((i, j)); } } }
    if pairs.is_empty() { return None; }
    // loops of the whole message are rare among all of them
    let (i, j) = if r.chance(50) { *pairs.iter().filter(|p| t.states[at[p.0] as usize].c.ends_with('1') || t.states[at[p.0] as usize].c == "Hdr").next().unwrap_or(r.pick(&pairs)) }
                 else { *r.pick(&pairs) };
    let mut v = input[..i].to_vec();
    for _ in 0..n / (j - i) + 1 { v.extend_from_slice(&input[i..j]); }
    v.extend_from_slice(&input[i..]);
    m.input = v;
    Some(m)
}
