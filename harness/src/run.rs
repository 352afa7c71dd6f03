//! One case under many slicings and interruption schedules, and the attribution of a divergence.
use crate::exec::*;
use crate::gen::*;
use crate::guard::Guard;
use crate::rng::Rng;
use crate::sim::*;
use crate::table::*;
use std::sync::atomic::{AtomicBool, Ordering};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Whether state() is compared: only where that is the question, so that it hides nothing else.
pub static PLACE: AtomicBool = AtomicBool::new(false);

/// What is fed: messages one after the other on the same parser; all but the last are cut off
/// after `stop` bytes.
#[derive(Clone, Debug)]
pub struct Case { pub msgs: Vec<(Msg, usize)> }

#[derive(Clone, Debug)]
pub struct Variant { pub cuts: Vec<usize>, pub sched: Sched, pub low: bool, pub empties: bool, pub probe: bool }

impl Variant {
    pub fn whole() -> Variant { Variant { cuts: vec![], sched: Sched::Never, low: false, empties: false, probe: true } }
}

pub enum AnyParser { H1(http_box::http1::Parser<'static, H>), H2(http_box::http2::Parser<'static, H>) }

impl AnyParser {
    pub fn new(proto: u8) -> AnyParser {
        if proto == 1 { AnyParser::H1(http_box::http1::Parser::new()) } else { AnyParser::H2(http_box::http2::Parser::new()) }
    }
    /// `again`: the message is of the type of the one before, so that reset() prepares for it as well.
    pub fn init(&mut self, t: &Table, i: &Init, first: bool, again: bool) {
        match self {
            AnyParser::H1(p) => match *i {
                Init::Fresh => if !first { p.init_head() },
                Init::Head => if again { p.reset() } else { p.init_head() },
                Init::Chunked => if again { p.reset() } else { p.init_chunked() },
                Init::Multi(b) => { if again { p.reset() } else { p.init_multipart() } p.set_boundary(t.boundaries[b]) },
                Init::Url(n) => { if again { p.reset() } else { p.init_url_encoded() } p.set_length(n as usize) },
                Init::H2 => unreachable!(),
            },
            AnyParser::H2(p) => if !first { p.reset() },
        }
    }
    pub fn count(&self) -> usize { match self { AnyParser::H1(p) => p.byte_count(), AnyParser::H2(p) => p.byte_count() } }
}

fn norm(m: &Msg, first: bool) -> Msg {
    // a parser that is used again starts like any other: only the first one is "fresh"
    let mut m = m.clone();
    if !first && m.init == Init::Fresh { m.init = Init::Head; }
    m
}

pub fn run_case(t: &Table, g: &Guard, h: &mut H, c: &Case, v: &[Variant]) -> Result<(), (usize, Div)> {
    let mut p = AnyParser::new(t.proto);
    let n = c.msgs.len();
    for (i, (m, stop)) in c.msgs.iter().enumerate() {
        let mut m = norm(m, i == 0);
        if i + 1 < n { m.input.truncate(*stop); }
        let exp = m.expect(t);
        let var = &v[i.min(v.len() - 1)];
        h.start(&var.sched, &m.answers);
        let r = catch_unwind(AssertUnwindSafe(|| {
            let before = p.count();
            let again = i > 0 && var.low && std::mem::discriminant(&m.init) == std::mem::discriminant(&norm(&c.msgs[i - 1].0, false).init);
            p.init(t, &m.init, i == 0, again);
            if t.proto == 1 && p.count() != before {
                return Err(Div { kind: Dk::Account, loc: exp.loc[0], at: 0, detail: "byte_count() changed by initialization".into() });
            }
            if t.proto == 2 && i > 0 && p.count() != 0 {
                return Err(Div { kind: Dk::Account, loc: exp.loc[0], at: 0, detail: "byte_count() is not zero after reset()".into() });
            }
            let plan = Plan { cuts: &var.cuts, low: var.low, empties: var.empties, probe: var.probe, place: PLACE.load(Ordering::Relaxed) };
            match p {
                AnyParser::H1(ref mut p) => exec(t, p, h, g, &exp, &m.input, &plan),
                AnyParser::H2(ref mut p) => exec(t, p, h, g, &exp, &m.input, &plan),
            }
        }));
        match r {
            Ok(Ok(_)) => {},
            Ok(Err(d)) => return Err((i, d)),
            Err(e) => {
                let msg = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                let j = h.obs.len();
                let at = exp.cum.partition_point(|&c| (c as usize) <= j).saturating_sub(1).min(exp.loc.len() - 1);
                return Err((i, Div { kind: Dk::Panic, loc: exp.loc[at], at, detail: format!("panic: {}", msg) }));
            }
        }
    }
    Ok(())
}

/// Does the parser read other frame headers than the specification, on this message followed by empty frames?
fn frames_differ(t: &Table, g: &Guard, h: &mut H, m: &Msg, var: &Variant) -> bool {
    let mut m = m.clone();
    m.input.extend_from_slice(&[0; 64]);
    let e = m.expect(t);
    let headers = |toks: &[u64]| { let mut out = vec![]; let mut on = false;
        for &x in toks { if tname(x) != T_ARG { on = tname(x) == FRAME_FORMAT; } if on { out.push(x); } }
        out };
    let want = headers(&e.toks);
    let n = m.input.len();
    for cuts in [var.cuts.clone(), vec![], (1..n).collect()] {
        h.start(&Sched::Never, &m.answers);
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut p = AnyParser::new(2);
            let mut pos = 0;
            for end in cuts.iter().cloned().filter(|&c| c < n).chain(std::iter::once(n)) {
                if end < pos { continue; }
                match p { AnyParser::H2(ref mut p) => if let R::Err(..) = Target::resume(p, h, g.place(&m.input[pos..end], false)) { break }, _ => {} }
                pos = end;
            }
        }));
        if r.is_err() || headers(&h.obs) != want { return true; }
    }
    false
}

/// Properties a divergence speaks about.
pub fn tags(t: &Table, g: &Guard, h: &mut H, c: &Case, v: &[Variant], at: usize, d: &Div) -> Vec<&'static str> {
    let mut out: Vec<&'static str> = vec![];
    if d.kind == Dk::Where { return vec!["C21"]; }
    if d.kind == Dk::State && d.detail.starts_with("state()") { out.push("C21"); }
    let s = &t.states[d.loc as usize];
    let group = &t.groups[s.group as usize][..];
    let content = matches!(d.kind, Dk::Event | Dk::Accept | Dk::Panic | Dk::ErrInfo | Dk::Ret);
    if t.proto == 1 {
        if content {
            if d.kind != Dk::Ret && d.kind != Dk::ErrInfo {
                out.push(match group { "start" if s.ty == "head" => "C04", "header" => "C05", "chunk" => "C06",
                                       "multipart" => "C07", "url" => "C08", _ => "C05" });
                if s.ty == "chunked" { out.push("C06"); }
                if s.ty == "multipart" { out.push("C07"); }
            }
            // a message that ends where it should not, or does not end
            if d.kind == Dk::Ret && (d.detail.contains("expected Finished") || d.detail.contains("Finished")) {
                out.push(match &s.ty[..] { "chunked" => "C06", "multipart" => "C07", "url" => "C08", _ => "C05" });
            }
        }
        if matches!(d.kind, Dk::Accept | Dk::ErrInfo | Dk::State) { out.push("C09"); }
        if d.kind == Dk::Account { out.push("C03"); }
        if d.kind == Dk::Ret { out.push("C03"); out.push("C02"); }
        if d.kind == Dk::State { out.push("C03"); }
        if d.kind == Dk::Panic { out.push("C10"); }
    } else {
        if matches!(d.kind, Dk::Event | Dk::Accept | Dk::ErrInfo | Dk::Panic) { out.push("C12"); }
        if group == "header" && matches!(d.kind, Dk::Event | Dk::Accept | Dk::Panic) { out.push("C13"); }
        if d.kind == Dk::Accept || d.kind == Dk::State { out.push("C13"); }
        if frames_differ(t, g, h, &c.msgs[at].0, &v[at.min(v.len() - 1)]) { out.push("C13"); }
        if matches!(d.kind, Dk::Account | Dk::Ret | Dk::State) { out.push("C14"); }
        if d.kind == Dk::Panic { out.push("C10"); }
    }
    // something is reported where only an error may follow
    let rejected = |m: &Msg, stop: usize| { let mut m = m.clone(); m.input.truncate(stop); let e = m.expect(t);
        matches!(e.end, End::Err { .. }) && d.at >= e.loc.len() };
    if t.proto == 1 && d.kind == Dk::Event && rejected(&norm(&c.msgs[at].0, at == 0), if at + 1 < c.msgs.len() { c.msgs[at].1 } else { usize::MAX }) { out.push("C09"); }
    // differences between runs of the real parser
    let last = (norm(&c.msgs[at].0, at == 0), c.msgs[at].1);
    let mut m = last.0.clone();
    if at + 1 < c.msgs.len() { m.input.truncate(last.1); }
    let single = Case { msgs: vec![(m.clone(), m.input.len())] };
    let var = v[at.min(v.len() - 1)].clone();
    let same = |r: &Result<(), (usize, Div)>| match r { Err((_, e)) => e.kind == d.kind && e.loc == d.loc && e.at == d.at, _ => false };
    let plain = |v: &Variant| v.sched == Sched::Never;
    // what the same message does on a new parser
    let fresh = run_case(t, g, h, &single, std::slice::from_ref(&var));
    if at > 0 && !same(&fresh) {
        out.push("C11");
        if t.proto == 2 { out.push("C12"); }
    }
    if let Err((_, ref fd)) = fresh {
        let sliced = Variant { sched: Sched::Never, ..var.clone() };
        let rs = if plain(&var) { fresh.clone() } else { run_case(t, g, h, &single, &[sliced]) };
        let diff = |a: &Result<(), (usize, Div)>, b: &Result<(), (usize, Div)>| match (a, b) {
            (Err((_, x)), Err((_, y))) => x.kind != y.kind || x.at != y.at || x.loc != y.loc,
            (Err(_), Ok(())) => true,
            _ => false,
        };
        if !plain(&var) && diff(&fresh, &rs) { out.push(if t.proto == 1 { "C02" } else { "C14" }); }
        if !var.cuts.is_empty() || var.empties {
            let w = Variant { sched: Sched::Never, cuts: vec![], empties: false, ..var.clone() };
            let rw = run_case(t, g, h, &single, &[w]);
            if diff(&rs, &rw) { out.push(if t.proto == 1 { "C01" } else { "C14" }); }
        } else {
            // the whole is wrong, and right in pieces
            let n = m.input.len();
            for cuts in [(1..n).collect::<Vec<_>>(), vec![n / 2], vec![1], vec![n.max(1) - 1]] {
                let w = Variant { sched: Sched::Never, cuts, empties: false, ..var.clone() };
                let rw = run_case(t, g, h, &single, &[w]);
                if rw.is_ok() { out.push(if t.proto == 1 { "C01" } else { "C14" }); break; }
            }
        }
        if plain(&var) {
            let w = Variant { sched: Sched::Always, ..var.clone() };
            if run_case(t, g, h, &single, &[w]).is_ok() { out.push(if t.proto == 1 { "C02" } else { "C14" }); }
        }
        let _ = fd;
    }
    out.sort(); out.dedup();
    out
}

/// The slicings and schedules every case is run under.
pub fn variants(r: &mut Rng, n: usize, mark: usize, level: u32, out: &mut Vec<Variant>) {
    out.clear();
    let base = Variant { low: r.chance(25), ..Variant::whole() };
    out.push(base.clone());
    if n == 0 { out.push(Variant { sched: Sched::Always, ..base.clone() }); return; }
    let bytewise: Vec<usize> = (1..n).collect();
    let random = |r: &mut Rng, k: usize| { let mut c: Vec<usize> = (0..k).map(|_| 1 + r.usize(n)).collect(); c.sort(); c.dedup(); c };
    out.push(Variant { cuts: bytewise.clone(), ..base.clone() });
    if mark > 0 && mark < n { out.push(Variant { cuts: vec![mark], ..base.clone() }); }
    if mark + 1 < n { out.push(Variant { cuts: vec![mark + 1], ..base.clone() }); }
    let k = 1 + r.usize(3); let c = random(r, k);
    out.push(Variant { cuts: c, empties: r.chance(10), ..base.clone() });
    out.push(Variant { sched: Sched::Always, ..base.clone() });
    let k = 1 + r.usize(5); let c = random(r, k);
    let sched = match r.below(3) { 0 => Sched::Always, 1 => Sched::Every(2), _ => Sched::Every(2 + r.below(4) as u32) };
    out.push(Variant { cuts: c, sched, empties: r.chance(10), ..base.clone() });
    if level >= 1 {
        out.push(Variant { cuts: bytewise.clone(), sched: Sched::Always, ..base.clone() });
        let k = n / 4 + 1; let c = random(r, k);
        out.push(Variant { cuts: c, sched: Sched::Nth(vec![1 + r.below(6) as u32, 3 + r.below(12) as u32]), ..base.clone() });
        let k = n / 8 + 1; let c = random(r, k);
        out.push(Variant { cuts: c, ..base.clone() });
    }
    if level >= 2 {
        // every single cut, every single interruption
        let m = n.min(120);
        for i in 1..m { out.push(Variant { cuts: vec![i], ..base.clone() }); }
        for i in 1..=m.min(60) as u32 {
            out.push(Variant { sched: Sched::Nth(vec![i]), ..base.clone() });
            out.push(Variant { sched: Sched::Nth(vec![i]), cuts: vec![1 + r.usize(n)], ..base.clone() });
        }
        for _ in 0..20 {
            let k = 2 + r.usize(6); let c = random(r, k);
            out.push(Variant { cuts: c, ..base.clone() });
        }
    }
}

// ------------------------------------------------------------------------------------------------
// text form of a case, for replays
// ------------------------------------------------------------------------------------------------

pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
pub fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }

pub fn dump(t: &Table, c: &Case, v: &[Variant]) -> String {
    let mut s = format!("proto {}\n", t.proto);
    for (i, (m, stop)) in c.msgs.iter().enumerate() {
        let init = match m.init { Init::Fresh => "fresh".into(), Init::Head => "head".into(), Init::Chunked => "chunked".into(),
                                  Init::Multi(b) => format!("multi:{}", hex(t.boundaries[b])), Init::Url(n) => format!("url:{}", n),
                                  Init::H2 => "h2".to_string() };
        let a: Vec<String> = m.answers.iter().map(|a| a.map_or("-".into(), |n| n.to_string())).collect();
        let var = &v[i.min(v.len() - 1)];
        let sched = match var.sched { Sched::Never => "never".into(), Sched::Always => "always".into(),
                                      Sched::Every(n) => format!("every:{}", n),
                                      Sched::Nth(ref v) => format!("nth:{}", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")) };
        let cuts: Vec<String> = var.cuts.iter().map(|x| x.to_string()).collect();
        s.push_str(&format!("msg {} answers={} stop={} cuts={} sched={} low={} empties={} probe={} input={}\n", init, a.join(","), stop,
                            cuts.join(","), sched, var.low as u8, var.empties as u8, var.probe as u8, hex(&m.input)));
        s.push_str(&format!("# {}\n", String::from_utf8_lossy(&m.input).escape_debug()));
    }
    s
}

pub fn parse(t: &Table, text: &str) -> (Case, Vec<Variant>) {
    let (mut c, mut vs) = (Case { msgs: vec![] }, vec![]);
    for line in text.lines() {
        let mut it = line.split_whitespace();
        if it.next() != Some("msg") { continue; }
        let i = it.next().unwrap();
        let init = match i.split_once(':') {
            Some(("multi", b)) => { let b = unhex(b); Init::Multi(t.boundaries.iter().position(|x| **x == b[..]).expect("boundary")) },
            Some(("url", n)) => Init::Url(n.parse().unwrap()),
            _ => match i { "fresh" => Init::Fresh, "head" => Init::Head, "chunked" => Init::Chunked, _ => Init::H2 },
        };
        let mut m = Msg { init, answers: vec![], input: vec![] };
        let mut v = Variant::whole();
        let mut stop = 0;
        for kv in it {
            let (k, x) = kv.split_once('=').unwrap();
            let list = || x.split(',').filter(|s| !s.is_empty());
            match k {
                "answers" => m.answers = list().map(|s| s.parse().ok()).collect(),
                "stop" => stop = x.parse().unwrap(),
                "cuts" => v.cuts = list().map(|s| s.parse().unwrap()).collect(),
                "low" => v.low = x == "1", "empties" => v.empties = x == "1", "probe" => v.probe = x == "1",
                "sched" => v.sched = match x.split_once(':') {
                    Some(("every", n)) => Sched::Every(n.parse().unwrap()),
                    Some(("nth", n)) => Sched::Nth(n.split(',').map(|s| s.parse().unwrap()).collect()),
                    _ => if x == "always" { Sched::Always } else { Sched::Never } },
                "input" => m.input = unhex(x),
                _ => {}
            }
        }
        c.msgs.push((m, stop)); vs.push(v);
    }
    (c, vs)
}
