//! What parsing needs of memory: nothing.  Parsers do not allocate, and what they hand out is the
//! caller's own slice wherever a byte is handed out as it was read (spec/Http1Memory.tla).
use crate::exec::R;
use crate::gen::*;
use crate::guard::Guard;
use crate::run::*;
use crate::sim::*;
use crate::table::*;
use crate::util::Mach;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };       // bytes allocated and not freed
    static HIGH: Cell<i64> = const { Cell::new(0) };       // the most there have been
    static SUM: Cell<u64> = const { Cell::new(0) };        // bytes allocated in total
}

pub struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { note(l.size(), 0); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { note(l.size(), 0); System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { note(0, l.size()); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { note(n, l.size()); System.realloc(p, l, n) }
}
fn note(new: usize, old: usize) {
    let _ = LIVE.try_with(|c| { let x = c.get() + new as i64 - old as i64; c.set(x); let _ = HIGH.try_with(|h| if x > h.get() { h.set(x) }); });
    let _ = SUM.try_with(|c| c.set(c.get() + new as u64));
}
/// What `f` allocates: at most at once, in the end, and in total.
fn measure<T>(f: impl FnOnce() -> T) -> (T, i64, i64, u64) {
    let (live, sum) = (LIVE.with(|c| c.get()), SUM.with(|c| c.get()));
    HIGH.with(|h| h.set(live));
    let x = f();
    (x, HIGH.with(|h| h.get()) - live, LIVE.with(|c| c.get()) - live, SUM.with(|c| c.get()) - sum)
}

/// Notes where every byte came from, and does not allocate.
pub struct Z { toks: Vec<(u8, u8, usize)>, answers: Vec<Option<u64>>, parts: usize, n: u32, stop: u32, last: bool }
impl Z {
    pub fn new() -> Z { Z { toks: Vec::with_capacity(1 << 18), answers: Vec::with_capacity(64), parts: 0, n: 0, stop: 0, last: false } }
    fn ret(&mut self) -> bool { self.n += 1; self.last = self.stop > 0 && self.n % self.stop == 0; !self.last }
    fn data(&mut self, n: u8, d: &[u8]) -> bool {
        for b in d { if self.toks.len() < self.toks.capacity() { self.toks.push((n, *b, b as *const u8 as usize)); } }
        self.ret()
    }
}

macro_rules! cb {
    ($f:ident, $id:ident, d) => { fn $f(&mut self, d: &[u8]) -> bool { self.data($id, d) } };
    ($f:ident, $id:ident, f) => { fn $f(&mut self, d: &[u8], _: bool) -> bool { self.data($id, d) } };
    ($f:ident, $($ty:ty),*) => { cb!(@ $f; $($ty),*); };
    (@ $f:ident; ) => { fn $f(&mut self) -> bool { self.ret() } };
    (@ $f:ident; $a:ty) => { fn $f(&mut self, _: $a) -> bool { self.ret() } };
    (@ $f:ident; $a:ty, $b:ty) => { fn $f(&mut self, _: $a, _: $b) -> bool { self.ret() } };
    (@ $f:ident; $a:ty, $b:ty, $c:ty) => { fn $f(&mut self, _: $a, _: $b, _: $c) -> bool { self.ret() } };
    (@ $f:ident; $a:ty, $b:ty, $c:ty, $d:ty) => { fn $f(&mut self, _: $a, _: $b, _: $c, _: $d) -> bool { self.ret() } };
}

impl http_box::http1::HttpHandler for Z {
    fn content_length(&mut self) -> Option<usize> {
        if self.parts == 0 || self.answers.is_empty() { return None; }
        self.answers[(self.parts - 1) % self.answers.len()].map(|n| n as usize)
    }
    fn on_multipart_begin(&mut self) -> bool { self.parts += 1; self.ret() }
    cb!(on_body_finished,); cb!(on_chunk_begin,); cb!(on_chunk_extension_finished,); cb!(on_chunk_extensions_finished,);
    cb!(on_headers_finished,); cb!(on_initial_finished,); cb!(on_url_encoded_begin,);
    cb!(on_chunk_length, usize); cb!(on_status_code, u16); cb!(on_version, u16, u16);
    cb!(on_chunk_data, CHUNK, d); cb!(on_chunk_extension_name, XNAME, d); cb!(on_chunk_extension_value, XVALUE, d);
    cb!(on_header_name, HNAME, d); cb!(on_header_value, HVALUE, d); cb!(on_method, METHOD, d); cb!(on_multipart_data, PART, d);
    cb!(on_status, STATUS, d); cb!(on_url, URL, d); cb!(on_url_encoded_name, UNAME, d); cb!(on_url_encoded_value, UVALUE, d);
}
impl http_box::http2::HttpHandler for Z {
    cb!(on_data, DATA, f); cb!(on_go_away_debug_data, DEBUG, f); cb!(on_headers_fragment, FRAGMENT, f); cb!(on_ping, PING, f);
    cb!(on_unsupported, UNSUPPORTED, f);
    cb!(on_frame_format, u32, u8, u8, u32); cb!(on_go_away, u32, u32); cb!(on_headers, bool, u32, u8); cb!(on_priority, bool, u32, u8);
    cb!(on_push_promise, u32); cb!(on_rst_stream, u32); cb!(on_settings, u16, u32); cb!(on_window_update, u32);
}

enum P { A(http_box::http1::Parser<'static, Z>), B(http_box::http2::Parser<'static, Z>) }

fn resume(p: &mut P, h: &mut Z, s: &[u8]) -> R {
    use http_box::fsm::Success;
    let f = |x: Success| match x { Success::Eos(n) => R::Eos(n), Success::Callback(n) => R::Callback(n), Success::Finished(n) => R::Finished(n) };
    match p {
        P::A(p) => match p.resume(h, s) { Ok(x) => f(x), Err(_) => R::Err(String::new(), None) },
        P::B(p) => match p.resume(h, s) { Ok(x) => f(x), Err(_) => R::Err(String::new(), None) },
    }
}

/// What a call may allocate for its own purposes, whatever it is given.
const SMALL: i64 = 128;

/// What is not as it should be; counts the bytes that have been seen in place.
pub fn check(t: &Table, g: &Guard, h: &mut Z, m: &Msg, cuts: &[usize], stop_every: u32, seen_in_place: &mut u64) -> Option<String> {
    let exp = m.expect(t);
    let stop = match exp.end { End::Sink(n) => n, _ => m.input.len() };
    h.toks.clear(); h.answers.clear(); h.answers.extend_from_slice(&m.answers); h.parts = 0; h.n = 0; h.stop = stop_every; h.last = false;
    // the data tokens that are due, with the bytes that they are made of
    let mut due: Vec<(u8, u8, usize, bool)> = vec![];
    let mut plain = exp.plain.iter().peekable();
    let mut i = 0;
    for (j, &x) in exp.toks.iter().enumerate() {
        while i + 1 < exp.cum.len() && exp.cum[i] as usize <= j { i += 1; }
        // (cum[i] is the number of tokens due once i bytes have been consumed)
        let p = plain.peek().map_or(false, |&&k| k as usize == j);
        if p { plain.next(); }
        if tname(x) != T_ARG && t.class[tname(x) as usize] == b'd' { due.push((tname(x), tval(x) as u8, i.max(1) - 1, p)); }
    }
    let r = catch_unwind(AssertUnwindSafe(|| -> Option<String> {
        let (mut p, high, mut kept, _) = measure(|| { let mut p = if t.proto == 1 { P::A(http_box::http1::Parser::new()) } else { P::B(http_box::http2::Parser::new()) };
        if let P::A(ref mut p) = p {
            match m.init {
                Init::Head => p.init_head(),
                Init::Chunked => p.init_chunked(),
                Init::Multi(b) => { p.init_multipart(); p.set_boundary(t.boundaries[b]) },
                Init::Url(n) => { p.init_url_encoded(); p.set_length(n as usize) },
                _ => {}
            }
        } p });
        // a boundary that turns out to be data may be put together again
        let bound = SMALL + match m.init { Init::Multi(b) => 4 * t.boundaries[b].len() as i64, _ => 0 };
        if high > bound { return Some(format!("{} bytes allocated to prepare a parser", high)); }
        let (mut pos, mut k, mut seen, mut idle) = (0, 0, 0, 0);
        loop {
            while k < cuts.len() && cuts[k] <= pos { k += 1; }
            let end = if k < cuts.len() { cuts[k].min(stop) } else { stop };
            let s = g.place(&m.input[pos..end], false);
            let (r, high, left, _) = measure(|| resume(&mut p, h, s));
            if high > bound { return Some(format!("{} bytes allocated at once in a call with {} bytes after {}", high, s.len(), pos)); }
            kept += left;
            if kept > bound { return Some(format!("{} bytes remain allocated after a call with {} bytes after {}", kept, s.len(), pos)); }
            let base = s.as_ptr() as usize;
            while seen < h.toks.len() {
                let (n, b, at) = h.toks[seen];
                let Some(&(en, eb, ei, plain)) = due.get(seen) else { return None };
                if (n, b) != (en, eb) { return None; }
                let here = at >= base && at < base + s.len().max(1);
                let right = here && ei >= pos && at - base == ei - pos;
                if plain && t.inplace[n as usize] && t.states[exp.loc[ei] as usize].held == 0 {
                    if !right { return Some(format!("byte {} of the input is handed out from {} ({})", ei, if here { "elsewhere in the slice" } else { "a copy" }, NAMES[n as usize])); }
                    *seen_in_place += 1;
                }
                seen += 1;
            }
            let n = match r { R::Eos(n) | R::Callback(n) | R::Finished(n) => n, _ => return None };
            if n > s.len() { return None; }
            pos += n;
            if matches!(r, R::Finished(_)) || pos >= stop && matches!(r, R::Eos(_)) { return None; }
            if n == 0 { idle += 1; if idle > 30 { return None; } } else { idle = 0; }
        }
    }));
    match r { Ok(x) => x, Err(_) => None }
}

/// What the utilities allocate is in proportion to their input.
pub fn check_util(m: Mach, v: &[u8]) -> Option<String> {
    use http_box::util::*;
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut odd = None;
        let mut look = |what: &str, sum: u64, bound: u64| if sum > bound && odd.is_none() { odd = Some(format!("{} bytes allocated for {} of {} bytes", sum, what, v.len())); };
        // strings grow by doubling
        let linear = 8 * v.len() as u64 + 64;
        macro_rules! pairs { ($new:expr) => {{
            let (mut it, _, _, sum) = measure(|| $new);
            look("an iterator", sum, SMALL as u64);
            let (n, _, _, sum) = measure(|| { let mut n = 0u64; while let Some(_) = it.next() { n += 1; if n > v.len() as u64 + 2 { break; } } n });
            look("the pairs", sum, linear + 64 * n);
        }} }
        match m {
            Mach::Decode => { let (_, _, _, sum) = measure(|| decode(v).is_ok()); look("the result", sum, linear); },
            Mach::Query => pairs!(QueryIterator::new(v)),
            Mach::Field(d, n) => pairs!(FieldIterator::new(v, d, n)),
        }
        odd
    }));
    r.unwrap_or(None)
}
