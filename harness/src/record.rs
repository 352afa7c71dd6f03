//! Records the public calls of the real library, for validation by TLC (spec/*Trace.tla).
use crate::exec::*;
use crate::gen::*;
use crate::guard::Guard;
use crate::rng::Rng;
use crate::run::*;
use crate::sim::{tname, tval, End};
use crate::table::*;
use crate::util;
use std::fmt::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

const CAP: u64 = 100_000_001;

fn bytes(out: &mut String, b: &[u8]) {
    out.push('[');
    for (i, x) in b.iter().enumerate() { if i > 0 { out.push(','); } let _ = write!(out, "{}", x); }
    out.push(']');
}

fn digits(mut n: u64, base: u64) -> Vec<i64> {
    let mut d = vec![];
    while n > 0 { d.push((n % base) as i64); n /= base; }
    d.reverse();
    d
}

/// Tokens as the specification compares them: <<name, numbers>>.
fn tokens(t: &Table, out: &mut String, obs: &[u64]) {
    out.push('[');
    let mut i = 0;
    while i < obs.len() {
        if i > 0 { out.push(','); }
        let name = tname(obs[i]);
        let _ = write!(out, "[\"{}\",[", NAMES[name as usize]);
        let mut v: Vec<i64> = vec![];
        if t.class[name as usize] == b'd' { v.push(tval(obs[i]) as i64); }
        i += 1;
        let mut k = 0;
        while i < obs.len() && tname(obs[i]) == T_ARG {
            if k > 0 { v.push(-1); }
            let base = t.args.get(&name).and_then(|a| a.get(k)).map_or(10, |r| t.base[*r as usize]);
            v.extend(digits(tval(obs[i]), base));
            k += 1; i += 1;
        }
        for (j, x) in v.iter().enumerate() { if j > 0 { out.push(','); } let _ = write!(out, "{}", x); }
        out.push_str("]]");
    }
    out.push(']');
}

fn state<P: Target>(p: &P) -> &'static str { if p.dead() { "dead" } else if p.finished() { "finished" } else { "open" } }

/// A case that is recorded call by call.
pub struct Rec<'a> { t: &'a Table, c: &'a Case, vs: &'a [Variant], pub id: usize, p: AnyParser, h: H, i: usize,
                     m: Option<(Msg, usize)>, pos: usize, k: usize, idle: u32, after: u32, fresh: bool }

impl<'a> Rec<'a> {
    pub fn new(t: &'a Table, c: &'a Case, vs: &'a [Variant], id: usize) -> Rec<'a> {
        Rec { t, c, vs, id, p: AnyParser::new(t.proto), h: H::new(), i: 0, m: None, pos: 0, k: 0, idle: 0, after: 0, fresh: true }
    }
    fn tag(&self) -> String { if self.id > 0 { format!(",\"id\":{}", self.id) } else { String::new() } }
    /// One public call; false when there are no more.
    pub fn step(&mut self, g: &Guard, out: &mut String) -> bool {
        let n = self.c.msgs.len();
        if self.fresh { self.fresh = false; let _ = write!(out, "{{\"op\":\"new\",\"count\":0,\"state\":\"open\"{}}}\n", self.tag()); return true; }
        if self.i >= n { return false; }
        if self.m.is_none() {
            let i = self.i;
            let (m, stop) = &self.c.msgs[i];
            let mut m = m.clone();
            if i > 0 && m.init == Init::Fresh { m.init = Init::Head; }
            if i + 1 < n { m.input.truncate(*stop); }
            let exp = m.expect(self.t);
            let stop = match exp.end { End::Sink(n) => n, _ => m.input.len() };
            let v = &self.vs[i.min(self.vs.len() - 1)];
            self.h.start(&v.sched, &m.answers);
            self.p.init(self.t, &m.init, i == 0, false);
            let (kind, arg) = match m.init { Init::Fresh => ("", 0), Init::Head => ("head", 0), Init::Chunked => ("chunked", 0),
                                             Init::Multi(b) => ("multi", b as u64 + 1), Init::Url(n) => ("url", n.min(CAP)), Init::H2 => (if i > 0 { "reset" } else { "" }, 0) };
            if kind != "" {
                let a: Vec<String> = m.answers.iter().map(|a| a.map_or(-1, |n| n.min(CAP) as i64).to_string()).collect();
                let (count, st) = match self.p { AnyParser::H1(ref p) => (p.count(), state(p)), AnyParser::H2(ref p) => (p.count(), state(p)) };
                let _ = write!(out, "{{\"op\":\"init\",\"kind\":\"{}\",\"arg\":{},\"ans\":[{}],\"count\":{},\"state\":\"{}\"{}}}\n", kind, arg, a.join(","), count, st, self.tag());
            }
            self.m = Some((m, stop));
            self.pos = 0; self.k = 0; self.idle = 0; self.after = 0;
            return true;
        }
        if !self.resume(g, out) { self.m = None; self.i += 1; }
        true
    }
    /// One resume(); false when the message is done with.
    fn resume(&mut self, g: &Guard, out: &mut String) -> bool {
        let tag = self.tag();
        let v = &self.vs[self.i.min(self.vs.len() - 1)];
        let (m, stop) = self.m.as_ref().unwrap();
        let stop = *stop;
        while self.k < v.cuts.len() && v.cuts[self.k] <= self.pos { self.k += 1; }
        let end = if self.k < v.cuts.len() { v.cuts[self.k].min(stop) } else { stop };
        let chunk: Vec<u8> = if self.after > 0 && end == self.pos { b"GET / ".to_vec() } else { m.input[self.pos..end].to_vec() };
        let h = &mut self.h;
        h.in_call = 0; h.last_false = false; h.rets.clear();
        let from = h.obs.len();
        let placed = g.place(&chunk, v.low);
        let (r, count, st, phase) = match self.p {
            AnyParser::H1(ref mut p) => (Target::resume(p, h, placed), p.count(), state(p), p.phase()),
            AnyParser::H2(ref mut p) => (Target::resume(p, h, placed), p.count(), state(p), p.phase()),
        };
        out.push_str("{\"op\":\"resume\",\"in\":");
        bytes(out, &chunk);
        out.push_str(",\"d\":");
        tokens(self.t, out, &h.obs[from..]);
        out.push_str(",\"rets\":[");
        for (i, x) in h.rets.iter().enumerate() { if i > 0 { out.push(','); } out.push_str(if *x { "true" } else { "false" }); }
        let (ret, n, er, byte) = match r {
            R::Eos(n) => ("eos", n, String::new(), -1), R::Callback(n) => ("callback", n, String::new(), -1),
            R::Finished(n) => ("finished", n, String::new(), -1), R::Err(ref k, b) => ("err", 0, k.clone(), b.map_or(-1, |b| b as i64)),
        };
        let _ = write!(out, "],\"ret\":\"{}\",\"n\":{},\"er\":\"{}\",\"byte\":{},\"count\":{},\"state\":\"{}\"{}", ret, n.min(100_000_000), er, byte, count.min(2_000_000_000), st, tag);
        if PLACE.load(std::sync::atomic::Ordering::Relaxed) && ret == "eos" && n > 0 && phase != 0 { let _ = write!(out, ",\"where\":\"{}\"", phase_name(phase)); }
        out.push_str("}\n");
        if n > chunk.len() { return false; }
        self.pos = (self.pos + n).min(stop);
        match r {
            R::Err(..) | R::Finished(_) => { self.after += 1; if self.after > 2 || !v.probe { return false; } if self.pos == stop && self.after > 1 { return false; } },
            R::Eos(_) => if self.pos == stop { return false; },
            R::Callback(_) => { self.idle = if n == 0 { self.idle + 1 } else { 0 }; if self.idle > 24 { return false; } },
        }
        true
    }
}

/// One case as lines; None if the real code panicked (other checks report that).
pub fn case(t: &Table, g: &Guard, c: &Case, vs: &[Variant]) -> Option<String> {
    let mut out = String::new();
    let ok = catch_unwind(AssertUnwindSafe(|| {
        let mut r = Rec::new(t, c, vs, 0);
        while r.step(g, &mut out) {}
    })).is_ok();
    if ok { Some(out) } else { None }
}

/// Several cases, on a parser each, by turns.
pub fn cases(t: &Table, g: &Guard, r: &mut Rng, cs: &[(Case, Vec<Variant>)]) -> Option<String> {
    let mut out = String::new();
    let ok = catch_unwind(AssertUnwindSafe(|| {
        let mut recs: Vec<Rec> = cs.iter().enumerate().map(|(i, (c, vs))| Rec::new(t, c, vs, i + 1)).collect();
        while !recs.is_empty() {
            let i = r.usize(recs.len());
            for _ in 0..1 + r.usize(2) { if !recs[i].step(g, &mut out) { recs.swap_remove(i); break; } }
        }
    })).is_ok();
    if ok { Some(out) } else { None }
}

pub fn header(t: &Table) -> String {
    let mut s = "{\"boundaries\":[".to_string();
    for (i, b) in t.boundaries.iter().enumerate() { if i > 0 { s.push(','); } bytes(&mut s, b); }
    s.push_str("]}\n");
    s
}

pub fn util_line(m: util::Mach, input: &[u8]) -> Option<String> {
    let o = match catch_unwind(AssertUnwindSafe(|| util::actual(m, input, util::Listen::First))) { Ok(Ok(o)) => o, _ => return None };
    let mut s = String::from("{");
    match m { util::Mach::Decode => s.push_str("\"m\":\"decode\""), util::Mach::Query => s.push_str("\"m\":\"query\""),
              util::Mach::Field(d, n) => { let _ = write!(s, "\"m\":\"field\",\"delim\":{},\"norm\":{}", d, n); } }
    s.push_str(",\"in\":"); bytes(&mut s, input);
    s.push_str(",\"out\":"); bytes(&mut s, &o.out);
    s.push_str(",\"items\":[");
    for (i, (n, v)) in o.items.iter().enumerate() {
        if i > 0 { s.push(','); }
        s.push('['); bytes(&mut s, n);
        let _ = write!(s, ",{},", v.is_some());
        bytes(&mut s, v.as_ref().map_or(&[][..], |v| &v[..])); s.push(']');
    }
    let (er, byte) = o.err.map_or((String::new(), 0), |(k, b)| (k, b));
    let _ = write!(s, "],\"er\":\"{}\",\"byte\":{}}}\n", er, byte);
    Some(s)
}
