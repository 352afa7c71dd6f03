//! HTTP/2 frames the specification leaves open (lengths that contradict the type): whatever they
//! mean, the meaning must not depend on the slicing, nothing panics and every byte is accounted for.
use crate::exec::*;
use crate::guard::Guard;
use crate::rng::Rng;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct RawOut { pub toks: Vec<u64>, pub err: Option<String> }

pub fn frames(r: &mut Rng) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..1 + r.usize(6) {
        let ty = if r.chance(70) { *r.pick(&[2u8, 3, 4, 8, 4, 2]) } else { r.below(12) as u8 };
        let len = match r.below(5) { 0 => r.below(4), 1 => 4 + r.below(4), 2 => 6 * r.below(5), 3 => r.below(40), _ => *r.pick(&[4, 5, 6, 0]) };
        let fl = *r.pick(&[0u8, 8, 0x20, 0x28, 1]);
        v.extend_from_slice(&[0, 0, len as u8, ty, fl, r.below(256) as u8, 0, r.below(3) as u8, r.below(256) as u8]);
        for _ in 0..len { let m = if r.chance(60) { 6 } else { 256 }; v.push(r.below(m) as u8); }
    }
    if r.chance(30) { let n = v.len(); v.truncate(r.usize(n + 1)); }
    if r.chance(20) { for _ in 0..r.usize(4) { let i = r.usize(v.len().max(1)); if i < v.len() { v[i] = r.below(256) as u8; } } }
    v
}

pub fn run(input: &[u8], cuts: &[usize], sched: &Sched, g: &Guard, h: &mut H) -> Result<RawOut, (&'static str, String)> {
    let mut p: http_box::http2::Parser<'static, H> = http_box::http2::Parser::new();
    h.start(sched, &[]);
    let (mut pos, mut k, mut idle) = (0usize, 0usize, 0);
    loop {
        while k < cuts.len() && cuts[k] <= pos { k += 1; }
        let end = if k < cuts.len() { cuts[k].min(input.len()) } else { input.len() };
        h.in_call = 0; h.last_false = false;
        let r = catch_unwind(AssertUnwindSafe(|| Target::resume(&mut p, h, g.place(&input[pos..end], false)))).map_err(|e|
            ("C10", format!("panic: {}", e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())))?;
        match r {
            R::Err(k, _) => {
                if !p.dead() { return Err(("C14", "state() is not Dead after an error".into())); }
                return Ok(RawOut { toks: h.obs.clone(), err: Some(k) });
            },
            R::Finished(_) => return Err(("C14", "Finished".into())),
            R::Eos(n) => {
                if n != end - pos { return Err(("C14", format!("Eos({}) on a slice of {}", n, end - pos))); }
                pos += n;
                if p.byte_count() != pos { return Err(("C14", format!("byte_count() is {} after {} bytes", p.byte_count(), pos))); }
                if pos == input.len() { return Ok(RawOut { toks: h.obs.clone(), err: None }); }
            },
            R::Callback(n) => {
                if n > end - pos { return Err(("C14", format!("Callback({}) on a slice of {}", n, end - pos))); }
                if !h.last_false { return Err(("C14", "Callback although no callback returned false".into())); }
                pos += n;
                if p.byte_count() != pos { return Err(("C14", format!("byte_count() is {} after {} bytes", p.byte_count(), pos))); }
                idle = if n == 0 { idle + 1 } else { 0 };
                if idle > 64 { return Err(("C14", "no progress".into())); }
            },
        }
    }
}

pub fn check(input: &[u8], cuts: &[usize], sched: &Sched, g: &Guard, h: &mut H) -> Option<(&'static str, String)> {
    let whole = match run(input, &[], &Sched::Never, g, h) { Ok(x) => x, Err(e) => return Some(e) };
    let cut = match run(input, cuts, sched, g, h) { Ok(x) => x, Err(e) => return Some(e) };
    if whole.err != cut.err { return Some(("C14", format!("{:?} in one piece, {:?} in slices {:?}", whole.err, cut.err, cuts))); }
    if whole.err.is_none() && whole.toks != cut.toks {
        let i = whole.toks.iter().zip(&cut.toks).position(|(a, b)| a != b).unwrap_or(whole.toks.len().min(cut.toks.len()));
        return Some(("C14", format!("in one piece {} in slices {}", show(&whole.toks, i), show(&cut.toks, i))));
    }
    None
}
