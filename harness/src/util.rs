//! decode(), QueryIterator and FieldIterator against the tables of spec/Util.tla, and the
//! agreement of the three decoders of URL-encoded data (spec/UrlAgree.tla).
use crate::exec::{H, Sched, R, Target};
use crate::guard::Guard;
use crate::rng::Rng;
use crate::run::{hex, unhex};
use crate::sim::{tname, tval};
use crate::table::*;
use http_box::util::*;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mach { Decode, Query, Field(u8, bool) }

impl Mach {
    pub fn name(&self) -> String {
        match self { Mach::Decode => "decode".into(), Mach::Query => "query".into(),
                     Mach::Field(d, n) => format!("field:{}:{}", d, *n as u8) }
    }
    pub fn parse(s: &str) -> Mach {
        let mut it = s.split(':');
        match it.next() { Some("decode") => Mach::Decode, Some("query") => Mach::Query,
                          _ => Mach::Field(it.next().unwrap().parse().unwrap(), it.next().unwrap() == "1") }
    }
    pub fn init(&self, t: &Table) -> Option<u32> {
        let (c, ty) = match self { Mach::Decode => ("Plain", "decode".to_string()), Mach::Query => ("First", "query".to_string()),
                                   Mach::Field(d, n) => ("FStart", format!("field-{}-{}", d, if *n { "True" } else { "False" })) };
        t.states.iter().position(|s| s.c == c && s.ty == ty).map(|x| x as u32)
    }
}

pub type Item = (Vec<u8>, Option<Vec<u8>>);

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Out { pub out: Vec<u8>, pub items: Vec<Item>, pub err: Option<(String, u8)> }

/// What the specification says; also the states visited.
pub fn expect(t: &Table, st: u32, input: &[u8]) -> Out {
    let (mut s, mut o) = (st, Out::default());
    let (mut name, mut value) = (vec![], vec![]);
    let mut take = |o: &mut Out, toks: &[(u8, i32)], b: u8| for &(n, v) in toks {
        let v = match v { -1 => b, -2 => b + 32, v => v as u8 };
        match n { OUT => o.out.push(v), NAME => name.push(v), VALUE => value.push(v),
                  ITEM => { o.items.push((std::mem::take(&mut name), None)); value.clear() },
                  ITEM_V => o.items.push((std::mem::take(&mut name), Some(std::mem::take(&mut value)))),
                  _ => panic!() }
    };
    for &b in input {
        let x = &t.states[s as usize];
        let out = &x.runs[x.row[b as usize] as usize].2[0];
        take(&mut o, &out.toks, b);
        if out.er != 0 { o.err = Some((t.kinds[out.er as usize - 1].clone(), b)); return o; }
        s = out.next;
    }
    let x = &t.states[s as usize];
    take(&mut o, &x.z, 0);
    if x.ze != 0 { o.err = Some((t.kinds[x.ze as usize - 1].clone(), *input.last().unwrap_or(&0))); }
    o
}

/// When the error callback is set: never, at first, or at first another one that is replaced after
/// so many pairs.
#[derive(Clone, Copy, PartialEq)]
pub enum Listen { No, First, After(usize) }

/// What the library does.  Strings are read as bytes only: they need not be UTF-8.
pub fn actual(m: Mach, input: &[u8], listen: Listen) -> Result<Out, String> {
    let mut o = Out::default();
    let max = input.len() + 2;
    let errs: RefCell<Vec<(String, u8)>> = RefCell::new(vec![]);
    let old = std::cell::Cell::new(false);
    macro_rules! drain { ($it:expr, $listen:expr) => {{
        let mut it = $it;
        match listen { Listen::No => {}, Listen::First => { it.on_error($listen); }, Listen::After(_) => { it.on_error(|_| old.set(true)); } }
        loop {
            if let Listen::After(k) = listen { if k == o.items.len() { it.on_error($listen); } }
            match it.next() {
                Some((n, v)) => {
                    if !errs.borrow().is_empty() { return Err("a pair after an error".into()); }
                    o.items.push((n.into_bytes(), v.map(|v| v.into_bytes())));
                    if o.items.len() > max { return Err("more pairs than bytes".into()); }
                },
                None => break,
            }
        }
        let n = errs.borrow().len();
        for _ in 0..3 { if let Some((n, v)) = it.next() { return Err(format!("a pair after the end: {:?} {:?}", n.into_bytes(), v.map(|v| v.into_bytes()))); } }
        if errs.borrow().len() != n { return Err("another error after the end".into()); }
    }} }
    match m {
        Mach::Decode => match decode(input) {
            Ok(s) => o.out = s.into_bytes(),
            Err(DecodeError::Byte(b)) => o.err = Some(("Byte".into(), b)),
            Err(DecodeError::HexSequence(b)) => o.err = Some(("HexSequence".into(), b)),
        },
        Mach::Query => {
            drain!(QueryIterator::new(input), |e| errs.borrow_mut().push(match e { QueryError::Name(b) => ("Name".into(), b), QueryError::Value(b) => ("Value".into(), b) }));
        },
        Mach::Field(d, n) => {
            drain!(FieldIterator::new(input, d, n), |e| errs.borrow_mut().push(match e { FieldError::Name(b) => ("Name".into(), b), FieldError::Value(b) => ("Value".into(), b) }));
        },
    }
    // the callback that was replaced hears nothing any more
    if let Listen::After(k) = listen { if old.get() && o.items.len() >= k { return Err("an error for a callback that was replaced".into()); } }
    let e = errs.into_inner();
    if e.len() > 1 { return Err(format!("{} errors reported", e.len())); }
    if m != Mach::Decode { o.err = e.into_iter().next(); }
    Ok(o)
}

fn utf8(i: &Item) -> bool {
    std::str::from_utf8(&i.0).is_ok() && i.1.as_ref().map_or(true, |v| std::str::from_utf8(v).is_ok())
}
pub fn show(v: &[u8]) -> String { String::from_utf8_lossy(v).escape_debug().to_string() }
fn show_item(i: &Item) -> String { match i.1 { Some(ref v) => format!("{}={}", show(&i.0), show(v)), None => show(&i.0) } }

pub struct Verdict { pub tag: &'static str, pub text: String }

/// Whether everything the input stands for is text: what is not, is a known finding.
pub fn text_only(t: &Table, st: u32, m: Mach, input: &[u8]) -> bool {
    // another delimiter than that of the table delivers the same bytes
    let _ = m;
    let e = expect(t, st, input);
    std::str::from_utf8(&e.out).is_ok() && e.items.iter().all(utf8) && std::str::from_utf8(input).is_ok()
}

/// One input for one machine.
pub fn check(t: &Table, st: u32, m: Mach, g: &Guard, input: &[u8], low: bool) -> Option<Verdict> {
    let e = expect(t, st, input);
    let tag = match m { Mach::Decode => "C15", Mach::Query => "C16", Mach::Field(..) => "C17" };
    let placed = g.place(input, low);
    let a = match catch_unwind(AssertUnwindSafe(|| actual(m, placed, Listen::First))) {
        Err(e) => { let s = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    return Some(Verdict { tag: "C10", text: format!("panic: {}", s) }) },
        Ok(Err(s)) => return Some(Verdict { tag, text: s }),
        Ok(Ok(a)) => a,
    };
    let bad = |s: String| Some(Verdict { tag, text: s });
    if m == Mach::Decode {
        // known finding: bytes that are no UTF-8 (any refusal would be right)
        if e.err.is_none() && std::str::from_utf8(&e.out).is_err() {
            return if a.err.is_none() && a.out != e.out { bad(format!("got {}, expected {}", show(&a.out), show(&e.out))) } else { None };
        }
        if a.err != e.err { return bad(format!("result {:?}, expected {:?}", a.err, e.err)); }
        if a.err.is_none() && a.out != e.out { return bad(format!("got {}, expected {}", show(&a.out), show(&e.out))); }
        return None;
    }
    let odd = e.items.iter().position(|i| !utf8(i));
    for i in 0..e.items.len().max(a.items.len()) {
        if a.items.get(i) != e.items.get(i) {
            // refusing the pair that is no UTF-8 would be right
            if Some(i) == odd && i == a.items.len() { return None; }
            let f = |x: Option<&Item>| x.map_or("nothing".into(), show_item);
            return bad(format!("pair {} is {}, expected {}", i + 1, f(a.items.get(i)), f(e.items.get(i))));
        }
    }
    if a.err != e.err { return bad(format!("error {:?}, expected {:?}", a.err, e.err)); }
    None
}

/// Without an error callback the pairs are the same; a callback that is set late gets what comes then.
pub fn check_listen(m: Mach, g: &Guard, input: &[u8]) -> Option<Verdict> {
    if m == Mach::Decode { return None; }
    let tag = if m == Mach::Query { "C16" } else { "C17" };
    let p = g.place(input, false);
    let bad = |text: String| Some(Verdict { tag, text });
    let r = catch_unwind(AssertUnwindSafe(|| {
        let a = match actual(m, p, Listen::First) { Ok(a) => a, Err(_) => return None };
        match actual(m, p, Listen::No) { Ok(b) => if a.items != b.items { return bad("other pairs without an error callback".into()) }, Err(e) => return bad(e) }
        let n = a.items.len();
        for k in [0, 1, n / 2, n] {
            if k > n { continue; }
            match actual(m, p, Listen::After(k)) {
                Ok(b) => if a != b { return bad(format!("with an error callback set after {} pairs: error {:?}, expected {:?}", k, b.err, a.err)) },
                Err(e) => return bad(e),
            }
        }
        None
    }));
    r.unwrap_or(None)
}

// ------------------------------------------------------------------------------------------------
// agreement (C18)
// ------------------------------------------------------------------------------------------------

/// Pairs of a URL-encoded body; an absent value and an empty one are the same.
pub fn body(input: &[u8], h: &mut H, g: &Guard, cuts: &[usize]) -> Result<(Vec<(Vec<u8>, Vec<u8>)>, Option<(String, u8)>, usize), String> {
    let mut p: http_box::http1::Parser<'static, H> = http_box::http1::Parser::new();
    p.init_url_encoded();
    p.set_length(input.len());
    h.start(&Sched::Never, &[]);
    let mut pos = 0;
    let mut k = 0;
    let mut err = None;
    loop {
        while k < cuts.len() && cuts[k] <= pos { k += 1; }
        let end = if k < cuts.len() { cuts[k].min(input.len()) } else { input.len() };
        h.in_call = 0; h.last_false = false;
        match Target::resume(&mut p, h, g.place(&input[pos..end], false)) {
            R::Eos(n) => { pos += n; if pos != end || end == input.len() { return Err("the body does not end".into()) } },
            R::Finished(n) => { pos += n; break },
            R::Callback(_) => return Err("interrupted".into()),
            R::Err(k, b) => { err = Some((k.trim_start_matches("UrlEncoded").to_string(), b.unwrap_or(0))); pos = p.byte_count(); break },
        }
    }
    let mut pairs = vec![];
    for &x in &h.obs {
        match tname(x) {
            URL_BEGIN => pairs.push((vec![], vec![])),
            UNAME => pairs.last_mut().ok_or("no begin")?.0.push(tval(x) as u8),
            UVALUE => pairs.last_mut().ok_or("no begin")?.1.push(tval(x) as u8),
            _ => {}
        }
    }
    Ok((pairs, err, pos))
}

/// The relation proved in spec/UrlAgree.tla, on the library itself.
pub fn agree(g: &Guard, h: &mut H, input: &[u8], cuts: &[usize]) -> Option<Verdict> {
    let v = |s: String| Some(Verdict { tag: "C18", text: s });
    let r = catch_unwind(AssertUnwindSafe(|| (body(input, h, g, cuts), actual(Mach::Query, input, Listen::First), actual(Mach::Decode, input, Listen::First))));
    let (b, q, d) = match r { Ok((Ok(b), Ok(q), Ok(d))) => (b, q, d), Ok((b, q, d)) => return v(format!("{:?} {:?} {:?}", b.err(), q.err(), d.err())), Err(_) => return v("panic".into()) };
    let (pairs, berr, _) = b;
    let special = |b: u8| b == b'=' || b == b'&' || b == b';';
    // an escape that the end of the input cuts off
    let n = input.len();
    let cut = (n >= 1 && input[n - 1] == b'%') || (n >= 2 && input[n - 2] == b'%' && berr.is_none());
    let odd = pairs.iter().any(|(a, b)| std::str::from_utf8(a).is_err() || std::str::from_utf8(b).is_err());
    if !odd && !input.is_empty() && !special(input[0]) && !(cut && berr.is_none()) {
        let qp: Vec<(Vec<u8>, Vec<u8>)> = q.items.iter().map(|(a, b)| (a.clone(), b.clone().unwrap_or_default())).collect();
        if berr != q.err { return v(format!("body error {:?}, query error {:?}", berr, q.err)); }
        // the pair an error interrupts is visible in the body only
        let m = if berr.is_some() { pairs.len().saturating_sub(1).min(qp.len()).max(qp.len().min(pairs.len())) } else { pairs.len() };
        if berr.is_none() && pairs != qp { return v(format!("body {:?}, query {:?}", pairs, qp)); }
        if berr.is_some() && (qp.len() > pairs.len() || pairs[..qp.len()] != qp[..] || pairs.len() > qp.len() + 1) {
            return v(format!("body {:?}, query {:?} before an error ({})", pairs, qp, m)); }
    }
    if !odd && !input.iter().any(|&b| special(b)) {
        match (&berr, &d.err) {
            (None, None) => if !input.is_empty() && (pairs.len() != 1 || pairs[0].0 != d.out || !pairs[0].1.is_empty()) { return v(format!("body {:?}, decoded {}", pairs, show(&d.out))); },
            (Some((_, a)), Some((_, b))) => if a != b { return v(format!("body error on {}, decode error on {}", a, b)); },
            (None, Some((k, _))) => if !(cut && k == "HexSequence") { return v(format!("body {:?}, decode error {:?}", pairs, d.err)); },
            (Some(_), None) => return v(format!("body error {:?}, decoded {}", berr, show(&d.out))),
        }
    }
    None
}

// ------------------------------------------------------------------------------------------------
// inputs
// ------------------------------------------------------------------------------------------------

pub fn random(t: &Table, st: u32, r: &mut Rng, words: &[Vec<u8>]) -> Vec<u8> {
    let n = *r.pick(&[4usize, 8, 16, 16, 40, 120]);
    let err = *r.pick(&[0u64, 0, 0, 2, 6]);
    let stay = *r.pick(&[0u64, 40, 80, 95]);
    let w = *r.pick(&[0u64, 0, 5, 20]);
    let mut s = st;
    let mut v = vec![];
    let n = r.usize(n + 1);
    while v.len() < n {
        let x = &t.states[s as usize];
        if x.kind == Kind::End { break; }
        let mut c = vec![];
        if w > 0 && !words.is_empty() && r.chance(w) { c = r.pick(words).clone(); }
        if c.is_empty() {
            let mut b = 0;
            for i in 0..10 {
                let (lo, hi, os) = r.pick(&x.runs);
                b = crate::gen::pick_byte(r, *lo, *hi);
                if os[0].er != 0 && !r.chance(err) && i < 9 { continue; }
                if os[0].er == 0 && t.states[os[0].next as usize].c != x.c && r.chance(stay) { continue; }
                break;
            }
            c.push(b);
        }
        for b in c {
            let x = &t.states[s as usize];
            if x.kind == Kind::End { break; }
            v.push(b);
            s = x.runs[x.row[b as usize] as usize].2[0].next;
        }
    }
    if !v.is_empty() && r.below(120) == 0 {
        // a piece of it so long, or so often
        let i = r.usize(v.len());
        let one = r.chance(60);
        let j = if one { i + 1 } else { i + 1 + r.usize(v.len() - i) };
        let nums = crate::gen::NUMS.get();
        let n = if r.chance(2) { 66_000 } else {
            let k = match nums { Some(v) if !v.is_empty() && r.chance(40) => *r.pick(v), _ => *r.pick(&crate::gen::LENS) };
            (k.min(5000) + r.below(5)).saturating_sub(2) as usize };
        let piece = v[i..j].to_vec();
        let mut x = v[..i].to_vec();
        let times = if one || r.chance(30) && n * piece.len() < 20_000 { n } else { n / piece.len() + 1 };
        for _ in 0..times { x.extend_from_slice(&piece); }
        x.extend_from_slice(&v[i..]);
        v = x;
    }
    if r.chance(20) { for _ in 0..r.usize(5) { v.push(r.below(256) as u8); } }
    v
}

/// A byte for each class that the states of one machine tell apart.
pub fn alphabet(t: &Table, ty: &str) -> Vec<u8> {
    let st: Vec<&State> = t.states.iter().filter(|s| s.ty == ty && s.kind != Kind::End).collect();
    let mut seen = std::collections::HashMap::new();
    let mut out = vec![];
    for b in 0..=255u8 {
        let sig: Vec<String> = st.iter().map(|s| {
            let o = &s.runs[s.row[b as usize] as usize].2[0];
            // states that differ in the digit read so far count as one
            let nx = &t.states[o.next as usize];
            format!("{} {} {:?}", o.er, nx.c, if s.c.ends_with('2') { vec![] } else { o.toks.iter().map(|x| (x.0, x.1.min(-1))).collect::<Vec<_>>() })
        }).collect();
        if seen.insert(sig, b).is_none() { out.push(b); }
    }
    out
}

pub fn case_text(kind: &str, m: Mach, input: &[u8], cuts: &[usize], why: &str) -> String {
    format!("{} {} input={} cuts={}\n# {}\n# {}\n", kind, m.name(), hex(input), cuts.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","), show(input), why)
}

pub fn replay(t: &Table, text: &str) -> Option<Verdict> {
    let line = text.lines().next().unwrap();
    let mut it = line.split_whitespace();
    let kind = it.next().unwrap();
    let m = Mach::parse(it.next().unwrap());
    let (mut input, mut cuts) = (vec![], vec![]);
    for kv in it {
        let (k, v) = kv.split_once('=').unwrap();
        if k == "input" { input = unhex(v); }
        if k == "cuts" { cuts = v.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect(); }
    }
    let g = Guard::new(1 << 20);
    if kind == "agree" { return agree(&g, &mut H::new(), &input, &cuts); }
    if kind == "memory" { return crate::memory::check_util(m, &input).map(|text| Verdict { tag: "C26", text }); }
    let st = m.init(t).expect("machine");
    check(t, st, m, &g, &input, false).or_else(|| check(t, st, m, &g, &input, true)).or_else(|| check_listen(m, &g, &input))
}
