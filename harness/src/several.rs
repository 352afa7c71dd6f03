//! Several parsers and iterators at work at the same time: what one of them does must not depend on
//! the others, whichever calls are made in between or inside of its callbacks, nor on the thread or
//! the place in memory it is used at (spec/Several.tla).
use crate::exec::*;
use crate::gen::*;
use crate::guard::{self, Guard};
use crate::rng::Rng;
use crate::run::*;
use crate::table::*;
use crate::util;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

/// What another one is made of.
#[derive(Clone)]
enum What { Msg(u8, Msg, Vec<usize>, Sched), Query(Vec<u8>), Field(Vec<u8>, u8, bool), Decode(Vec<u8>) }

/// One public call on another one, as far as it can be seen.
#[derive(Clone, PartialEq, Debug)]
enum Seen { Call(R, usize, usize), Pair(String), Error(String), End, Panic }

type Pairs = Box<dyn Iterator<Item = (String, Option<String>)>>;
enum Live { Parser(Box<AnyParser>), Pairs(Pairs), Done }

pub struct Other { what: What, live: Live, h: H, pos: usize, k: usize, idle: u32, log: Vec<Seen>, errs: std::rc::Rc<std::cell::RefCell<Vec<String>>> }

impl Other {
    fn new(t1: &Table, t2: &Table, what: What) -> Box<Other> {
        let mut o = Box::new(Other { what, live: Live::Done, h: H::new(), pos: 0, k: 0, idle: 0, log: vec![], errs: Default::default() });
        // the iterators borrow their input, which lives as long as the box
        fn forever(v: &[u8]) -> &'static [u8] { unsafe { std::slice::from_raw_parts(v.as_ptr(), v.len()) } }
        o.live = match o.what {
            What::Msg(proto, ref m, _, ref sched) => {
                o.h.start(sched, &m.answers);
                let mut p = Box::new(AnyParser::new(proto));
                p.init(if proto == 1 { t1 } else { t2 }, &m.init, true, false);
                Live::Parser(p)
            },
            What::Query(ref v) => {
                let mut it = http_box::util::QueryIterator::new(forever(v));
                let e = o.errs.clone();
                it.on_error(move |x| e.borrow_mut().push(format!("{:?}", x)));
                Live::Pairs(Box::new(it))
            },
            What::Field(ref v, d, n) => {
                let mut it = http_box::util::FieldIterator::new(forever(v), d, n);
                let e = o.errs.clone();
                it.on_error(move |x| e.borrow_mut().push(format!("{:?}", x)));
                Live::Pairs(Box::new(it))
            },
            What::Decode(_) => Live::Done,
        };
        o
    }
    fn over(&self) -> bool { matches!(self.log.last(), Some(Seen::End)) }
    /// One call.
    fn step(&mut self) {
        if self.over() { return; }
        let r = catch_unwind(AssertUnwindSafe(|| self.call()));
        if r.is_err() { self.log.push(Seen::Panic); self.log.push(Seen::End); }
    }
    fn call(&mut self) {
        let errs = self.errs.borrow().len();
        match self.what {
            What::Decode(ref v) => { self.log.push(Seen::Pair(format!("{:?}", http_box::util::decode(v).map(|s| s.into_bytes())))); self.log.push(Seen::End); },
            What::Query(_) | What::Field(..) => {
                let x = match self.live { Live::Pairs(ref mut it) => it.next(), _ => None };
                for e in &self.errs.borrow()[errs..] { self.log.push(Seen::Error(e.clone())); }
                match x { Some((n, v)) => self.log.push(Seen::Pair(format!("{:?} {:?}", n.into_bytes(), v.map(|v| v.into_bytes())))),
                          None => self.log.push(Seen::End) }
                if self.log.len() > 5_000 { self.log.push(Seen::End); }
            },
            What::Msg(_, ref m, ref cuts, _) => {
                while self.k < cuts.len() && cuts[self.k] <= self.pos { self.k += 1; }
                let end = if self.k < cuts.len() { cuts[self.k].min(m.input.len()) } else { m.input.len() };
                let slice = &m.input[self.pos..end];
                self.h.in_call = 0; self.h.last_false = false; self.h.rets.clear();
                let h = &mut self.h;
                let (r, count) = match self.live {
                    Live::Parser(ref mut p) => (p.resume(h, slice), p.count()),
                    _ => return,
                };
                let (n, open) = match r { R::Eos(n) => (n, true), R::Callback(n) => (n, true), _ => (0, false) };
                self.idle = if n == 0 { self.idle + 1 } else { 0 };
                let eos = matches!(r, R::Eos(_));
                self.log.push(Seen::Call(r, h.obs.len(), count));
                self.pos = (self.pos + n).min(m.input.len());
                if !open || self.idle > 24 || eos && self.pos == m.input.len() || self.log.len() > 20_000 { self.log.push(Seen::End); }
            },
        }
    }
}

impl AnyParser {
    fn resume(&mut self, h: &mut H, s: &[u8]) -> R {
        match self { AnyParser::H1(p) => Target::resume(p, h, s), AnyParser::H2(p) => Target::resume(p, h, s) }
    }
}

/// Uses other parsers between the calls and inside the callbacks of the one that is looked at.
pub struct Meddler { t1: &'static Table, t2: &'static Table, t3: &'static Table, r: Rng, others: Vec<Box<Other>>, past: Vec<Box<Other>>, depth: u32, odd: Option<String>, pub calls: u64 }

pub struct Tables { pub t1: &'static Table, pub t2: &'static Table, pub t3: &'static Table }

impl Meddler {
    pub fn new(t: &Tables, seed: u64, id: u64) -> Meddler {
        Meddler { t1: t.t1, t2: t.t2, t3: t.t3, r: Rng::new(seed ^ 0x5E7E, id), others: vec![], past: vec![], depth: 0, odd: None, calls: 0 }
    }
    fn another(&mut self) -> What {
        let r = &mut self.r;
        match r.below(10) {
            0..=4 | 5..=6 => {
                let proto = if r.chance(60) { 1 } else { 2 };
                let t = if proto == 1 { self.t1 } else { self.t2 };
                let m = random_msg(t, r, None, &[], false);
                let n = m.input.len();
                let mut cuts: Vec<usize> = if r.chance(30) { (1..n).collect() } else { (0..r.usize(6)).map(|_| 1 + r.usize(n.max(1))).collect() };
                cuts.sort();
                let sched = match r.below(4) { 0 => Sched::Always, 1 => Sched::Every(2), _ => Sched::Never };
                What::Msg(proto, m, cuts, sched)
            },
            k => {
                let t = self.t3;
                let all: Vec<(&State, u32)> = t.states.iter().enumerate().filter(|(_, s)| s.c == if k == 7 { "First" } else if k == 8 { "FStart" } else { "Plain" })
                    .map(|(i, s)| (s, i as u32)).collect();
                let (s, st) = *r.pick(&all);
                let v = util::random(t, st, r, &[]);
                if k == 7 { What::Query(v) } else if k == 8 {
                    let p: Vec<&str> = s.ty.split('-').collect();
                    What::Field(v, p[1].parse().unwrap(), p[2] == "True")
                } else { What::Decode(v) }
            },
        }
    }
    fn step(mut self: Box<Self>) -> Box<Self> {
        if self.others.len() < 3 && (self.others.is_empty() || self.r.chance(10)) {
            let w = self.another();
            let o = Other::new(self.t1, self.t2, w);
            self.others.push(o);
        }
        // (those whose callback this is are not among them)
        let i = self.r.usize(self.others.len());
        let mut o = self.others.swap_remove(i);
        for _ in 0..1 + self.r.usize(3) {
            self.calls += 1;
            self.depth += 1;
            o.h.meddle = Some(self);
            o.step();
            self = o.h.meddle.take().unwrap();
            self.depth -= 1;
        }
        if o.over() || self.r.chance(2) { self.past.push(o); } else { self.others.push(o); }
        self
    }
    pub fn inside(self: Box<Self>) -> Box<Self> { let mut m = self; if m.r.chance([25, 20, 10, 0][m.depth.min(3) as usize]) { m.step() } else { m } }
    fn between(self: Box<Self>) -> Box<Self> {
        let mut m = self;
        m.past();
        if m.r.chance(70) { m.step() } else { m }
    }
    /// Looks at those that are done (outside of all callbacks).
    fn past(&mut self) { while let Some(o) = self.past.pop() { self.judge(*o); } }
    /// The same calls on one that is alone.
    fn judge(&mut self, o: Other) {
        if self.odd.is_some() { return; }
        let mut a = Other::new(self.t1, self.t2, o.what.clone());
        while a.log.len() < o.log.len() && !a.over() { a.step(); }
        let i = (0..o.log.len().max(a.log.len())).find(|&i| o.log.get(i) != a.log.get(i));
        let name = match o.what { What::Msg(p, ref m, ref c, ref s) => format!("HTTP/{} {:?} {} cuts {:?} {:?}", p, m.init, util::show(&m.input), c, s),
            What::Query(ref v) => format!("QueryIterator {}", util::show(v)), What::Field(ref v, d, n) => format!("FieldIterator({}, {}) {}", d, n, util::show(v)),
            What::Decode(ref v) => format!("decode {}", util::show(v)) };
        if let Some(i) = i {
            self.odd = Some(format!("call {} of {}: {:?} among others, {:?} alone", i + 1, name, o.log.get(i), a.log.get(i)));
        } else if o.h.obs != a.h.obs {
            self.odd = Some(format!("other callbacks among others than alone: {}", name));
        }
    }
    fn close(&mut self) -> Option<String> {
        self.past();
        while let Some(o) = self.others.pop() { self.judge(*o); }
        self.odd.take()
    }
}

/// The one that is looked at.
struct Mixed { p: Option<Box<AnyParser>>, r: Rng, spare: Vec<Box<[u8; 24]>> }

struct Shift<T>(T);
unsafe impl<T> Send for Shift<T> {}

impl Target for Mixed {
    fn resume(&mut self, h: &mut H, s: &[u8]) -> R {
        if let Some(m) = h.meddle.take() { h.meddle = Some(m.between()); }
        // somewhere else
        if self.r.chance(30) {
            if self.r.chance(30) { self.spare.push(Box::new([0; 24])); }
            let p = *self.p.take().unwrap();
            self.p = Some(Box::new(p));
        }
        let p = self.p.as_mut().unwrap();
        if self.r.below(4000) == 0 {
            let th = guard::THREAD.with(|t| t.get());
            let x = Shift((p, h, s));
            return std::thread::scope(|sc| match sc.spawn(move || { guard::THREAD.with(|t| t.set(th)); let x = x; let Shift((p, h, s)) = x; Shift(p.resume(h, s)) }).join() {
                Ok(Shift(r)) => r, Err(e) => resume_unwind(e) });
        }
        p.resume(h, s)
    }
    fn count(&self) -> usize { self.p.as_ref().unwrap().count() }
    fn dead(&self) -> bool { match **self.p.as_ref().unwrap() { AnyParser::H1(ref p) => p.dead(), AnyParser::H2(ref p) => p.dead() } }
    fn finished(&self) -> bool { match **self.p.as_ref().unwrap() { AnyParser::H1(ref p) => p.finished(), AnyParser::H2(ref p) => p.finished() } }
    fn phase(&self) -> u8 { match **self.p.as_ref().unwrap() { AnyParser::H1(ref p) => p.phase(), AnyParser::H2(ref p) => p.phase() } }
}

/// What went wrong: with the parser that is looked at, or with one of the others.
pub enum Odd { Main(String), Other(String) }

pub fn check(tables: &Tables, t: &Table, g: &Guard, h: &mut H, c: &Case, vs: &[Variant], seed: u64, id: u64) -> (Option<Odd>, u64) {
    let mut med = Box::new(Meddler::new(tables, seed, id));
    if Rng::new(seed, id ^ 0x77).chance(50) { med = med.step(); }
    h.meddle = Some(med);
    let mut p = Mixed { p: Some(Box::new(AnyParser::new(t.proto))), r: Rng::new(seed ^ 0x30BE, id), spare: vec![] };
    let n = c.msgs.len();
    let mut odd = None;
    for (i, (m, stop)) in c.msgs.iter().enumerate() {
        let mut m = m.clone();
        if i > 0 && m.init == Init::Fresh { m.init = Init::Head; }
        if i + 1 < n { m.input.truncate(*stop); }
        let exp = m.expect(t);
        let v = &vs[i.min(vs.len() - 1)];
        h.start(&v.sched, &m.answers);
        let r = catch_unwind(AssertUnwindSafe(|| {
            p.p.as_mut().unwrap().init(t, &m.init, i == 0, false);
            if let Some(m) = h.meddle.take() { h.meddle = Some(m.between()); }
            exec(t, &mut p, h, g, &exp, &m.input, &Plan { cuts: &v.cuts, low: v.low, empties: v.empties, probe: v.probe, place: false })
        }));
        match r {
            Ok(Ok(_)) => {},
            Ok(Err(d)) => { odd = Some(Odd::Main(format!("{:?} in message {} at {}: {}", d.kind, i, d.at, d.detail))); break; },
            Err(_) => { odd = Some(Odd::Main(format!("panic in message {}", i))); break; },
        }
        if p.p.is_none() { break; }
    }
    let (other, calls) = match h.meddle.take() { Some(mut m) => (m.close(), m.calls), None => (None, 0) };
    (odd.or(other.map(Odd::Other)), calls)
}
