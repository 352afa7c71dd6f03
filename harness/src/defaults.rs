//! Handlers that implement only some of the callbacks: the others are those of the trait.
use crate::exec::R;
use crate::gen::*;
use crate::guard::Guard;
use crate::rng::Rng;
use crate::sim::*;
use crate::table::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

struct Nothing;
impl http_box::http1::HttpHandler for Nothing {}
impl http_box::http2::HttpHandler for Nothing {}

/// Implements the callbacks in `mask`.
struct Some1 { mask: u64, obs: Vec<u64>, answers: Option<Vec<Option<u64>>>, parts: usize }

impl Some1 {
    fn has(&self, n: u8) -> bool { self.mask >> n & 1 == 1 }
    fn data(&mut self, n: u8, d: &[u8]) -> bool { for &b in d { self.obs.push(tok(n, b as u64)); } true }
    fn data_fin(&mut self, n: u8, e: u8, d: &[u8], f: bool) -> bool { self.data(n, d); if f { self.obs.push(tok(e, 0)); } true }
    fn event(&mut self, n: u8, a: &[u64]) -> bool { self.obs.push(tok(n, 0)); for &x in a { self.obs.push(tok(T_ARG, x)); } true }
}

macro_rules! cb {
    ($tr:path, $f:ident, $id:ident, d) => { fn $f(&mut self, d: &[u8]) -> bool { if self.has($id) { self.data($id, d) } else { <Nothing as $tr>::$f(&mut Nothing, d) } } };
    ($tr:path, $f:ident, $id:ident, $end:ident) => { fn $f(&mut self, d: &[u8], f: bool) -> bool { if self.has($id) { self.data_fin($id, $end, d, f) } else { <Nothing as $tr>::$f(&mut Nothing, d, f) } } };
    ($tr:path, $f:ident, $id:ident, ($($a:ident : $ty:ty),*)) => { fn $f(&mut self $(, $a: $ty)*) -> bool { if self.has($id) { self.event($id, &[$($a as u64),*]) } else { <Nothing as $tr>::$f(&mut Nothing $(, $a)*) } } };
}

use http_box::http1::HttpHandler as H1;
use http_box::http2::HttpHandler as H2;

impl H1 for Some1 {
    fn content_length(&mut self) -> Option<usize> {
        match self.answers {
            None => <Nothing as H1>::content_length(&mut Nothing),
            Some(ref a) => if a.is_empty() || self.parts == 0 { None } else { a[(self.parts - 1) % a.len()].map(|n| n as usize) },
        }
    }
    fn on_multipart_begin(&mut self) -> bool {
        self.parts += 1;
        if self.has(MULTIPART_BEGIN) { self.event(MULTIPART_BEGIN, &[]) } else { <Nothing as H1>::on_multipart_begin(&mut Nothing) }
    }
    cb!(H1, on_body_finished, BODY_FINISHED, ());
    cb!(H1, on_chunk_begin, CHUNK_BEGIN, ());
    cb!(H1, on_chunk_data, CHUNK, d);
    cb!(H1, on_chunk_extension_finished, EXT_FINISHED, ());
    cb!(H1, on_chunk_extension_name, XNAME, d);
    cb!(H1, on_chunk_extension_value, XVALUE, d);
    cb!(H1, on_chunk_extensions_finished, EXTS_FINISHED, ());
    cb!(H1, on_chunk_length, CHUNK_LENGTH, (n: usize));
    cb!(H1, on_header_name, HNAME, d);
    cb!(H1, on_header_value, HVALUE, d);
    cb!(H1, on_headers_finished, HEADERS_FINISHED, ());
    cb!(H1, on_initial_finished, INITIAL_FINISHED, ());
    cb!(H1, on_method, METHOD, d);
    cb!(H1, on_multipart_data, PART, d);
    cb!(H1, on_status, STATUS, d);
    cb!(H1, on_status_code, STATUS_CODE, (n: u16));
    cb!(H1, on_url, URL, d);
    cb!(H1, on_url_encoded_begin, URL_BEGIN, ());
    cb!(H1, on_url_encoded_name, UNAME, d);
    cb!(H1, on_url_encoded_value, UVALUE, d);
    cb!(H1, on_version, VERSION, (a: u16, b: u16));
}

impl H2 for Some1 {
    cb!(H2, on_data, DATA, DATA_END);
    cb!(H2, on_frame_format, FRAME_FORMAT, (l: u32, t: u8, f: u8, s: u32));
    cb!(H2, on_go_away, GO_AWAY, (s: u32, e: u32));
    cb!(H2, on_go_away_debug_data, DEBUG, DEBUG_END);
    cb!(H2, on_headers, HEADERS, (e: bool, s: u32, w: u8));
    cb!(H2, on_headers_fragment, FRAGMENT, FRAGMENT_END);
    cb!(H2, on_ping, PING, PING_END);
    cb!(H2, on_priority, PRIORITY, (e: bool, s: u32, w: u8));
    cb!(H2, on_push_promise, PUSH_PROMISE, (s: u32));
    cb!(H2, on_rst_stream, RST_STREAM, (e: u32));
    cb!(H2, on_settings, SETTINGS, (i: u16, v: u32));
    cb!(H2, on_unsupported, UNSUPPORTED, UNSUPPORTED_END);
    cb!(H2, on_window_update, WINDOW_UPDATE, (n: u32));
}

fn callback_of(name: u8) -> u8 {
    match name { DATA_END => DATA, FRAGMENT_END => FRAGMENT, PING_END => PING, DEBUG_END => DEBUG, UNSUPPORTED_END => UNSUPPORTED, n => n }
}

enum P { A(http_box::http1::Parser<'static, Some1>), B(http_box::http2::Parser<'static, Some1>) }

fn resume(p: &mut P, h: &mut Some1, s: &[u8]) -> R {
    use http_box::fsm::Success;
    let f = |x: Success| match x { Success::Eos(n) => R::Eos(n), Success::Callback(n) => R::Callback(n), Success::Finished(n) => R::Finished(n) };
    match p {
        P::A(p) => match p.resume(h, s) { Ok(x) => f(x), Err(e) => R::Err(format!("{:?}", e), None) },
        P::B(p) => match p.resume(h, s) { Ok(x) => f(x), Err(e) => R::Err(format!("{:?}", e), None) },
    }
}

/// The callbacks of a case: none, one, all but one, or any.
pub fn mask(r: &mut Rng) -> u64 {
    match r.below(4) { 0 => 0, 1 => 1 << r.below(40), 2 => !(1 << r.below(40)), _ => r.next() }
}

pub fn check(t: &Table, g: &Guard, m: &Msg, mask: u64, asks: bool, cuts: &[usize]) -> Option<String> {
    let mut m = m.clone();
    if !asks { m.answers = vec![]; }
    let exp = m.expect(t);
    let mut want = vec![];
    let mut on = false;
    for &x in &exp.toks {
        if tname(x) != T_ARG { on = mask >> callback_of(tname(x)) & 1 == 1; }
        if on { want.push(x); }
    }
    let mut h = Some1 { mask, obs: vec![], answers: if asks { Some(m.answers.clone()) } else { None }, parts: 0 };
    let r = catch_unwind(AssertUnwindSafe(|| -> Result<(), String> {
        let mut p = if t.proto == 1 { P::A(http_box::http1::Parser::new()) } else { P::B(http_box::http2::Parser::new()) };
        if let P::A(ref mut p) = p {
            match m.init {
                Init::Head => p.init_head(),
                Init::Chunked => p.init_chunked(),
                Init::Multi(b) => { p.init_multipart(); p.set_boundary(t.boundaries[b]) },
                Init::Url(n) => { p.init_url_encoded(); p.set_length(n as usize) },
                _ => {}
            }
        }
        let stop = match exp.end { End::Sink(n) => n, _ => m.input.len() };
        let mut pos = 0;
        for end in cuts.iter().cloned().filter(|&c| c > 0 && c < stop).chain(std::iter::once(stop)) {
            let s = &m.input[pos..end];
            let r = resume(&mut p, &mut h, g.place(s, false));
            let due = match exp.end { End::Fin(e) if e <= end => R::Finished(e - pos), End::Err { pos: e, .. } if e <= end => R::Err(String::new(), None), _ => R::Eos(s.len()) };
            match (&r, &due) {
                (R::Err(..), R::Err(..)) => return Ok(()),
                _ if r == due => {},
                _ => return Err(format!("{:?} instead of {:?} after {} bytes with the callbacks {:?}", r, due, pos, names(t, mask))),
            }
            if matches!(r, R::Finished(_)) { return Ok(()); }
            pos = end;
        }
        Ok(())
    }));
    match r {
        Err(_) => Some("panic".into()),
        Ok(Err(e)) => Some(e),
        Ok(Ok(())) => {
            // an error may come before the last data is delivered
            let ok = if matches!(exp.end, End::Err { .. }) {
                h.obs.len() <= want.len() && h.obs[..] == want[..h.obs.len()] && want[h.obs.len()..].iter().all(|&x| t.class[tname(x) as usize] == b'd')
            } else { h.obs == want };
            if ok { None } else { Some(format!("with only the callbacks {:?}: got {} of {} tokens, {}", names(t, mask), h.obs.len(), want.len(), crate::exec::show(&h.obs, 0))) }
        }
    }
}

fn names(t: &Table, mask: u64) -> Vec<&'static str> {
    (0..40u8).filter(|&i| mask >> i & 1 == 1 && t.class[i as usize] != 0 && callback_of(i) == i).map(|i| NAMES[i as usize]).collect()
}
