//! Runs the real parsers and compares what they do with what the specification says.
use crate::guard::Guard;
use crate::sim::*;
use crate::table::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Sched { Never, Always, Every(u32), Nth(Vec<u32>) }

pub struct H {
    pub obs: Vec<u64>,
    pub sched: Sched,
    pub ncb: u32,            // callbacks so far (in this message)
    pub nsched: u32,         // index into Nth
    pub last_false: bool,    // the last callback returned false
    pub after_false: bool,   // a callback came after one that returned false
    pub in_call: u32,        // callbacks in this resume()
    pub answers: Vec<Option<u64>>,
    pub parts: usize,
    pub bad_ask: bool,       // content_length() asked before the headers of a part were finished
    pub last: u8,
    pub empty_data: bool,    // a data callback without data that is not an end
    pub rets: Vec<bool>,     // what the callbacks of this resume() returned
    pub meddle: Option<Box<crate::several::Meddler>>,  // uses other parsers inside of callbacks
}

impl H {
    pub fn new() -> H {
        H { obs: Vec::with_capacity(256), sched: Sched::Never, ncb: 0, nsched: 0, last_false: false,
            after_false: false, in_call: 0, answers: vec![], parts: 0, bad_ask: false, last: 255,
            empty_data: false, rets: vec![], meddle: None }
    }
    pub fn start(&mut self, sched: &Sched, answers: &[Option<u64>]) {
        self.obs.clear(); self.rets.clear(); self.sched = sched.clone(); self.ncb = 0; self.nsched = 0;
        self.last_false = false; self.after_false = false; self.in_call = 0;
        self.answers = answers.to_vec(); self.parts = 0; self.bad_ask = false; self.last = 255;
        self.empty_data = false;
    }
    fn ret(&mut self, name: u8) -> bool {
        if self.last_false && self.in_call > 0 { self.after_false = true; }
        self.in_call += 1;
        self.ncb += 1;
        self.last = name;
        let stop = match self.sched {
            Sched::Never => false,
            Sched::Always => true,
            Sched::Every(n) => self.ncb % n == 0,
            Sched::Nth(ref v) => {
                while (self.nsched as usize) < v.len() && v[self.nsched as usize] < self.ncb { self.nsched += 1; }
                (self.nsched as usize) < v.len() && v[self.nsched as usize] == self.ncb
            }
        };
        self.last_false = stop;
        self.rets.push(!stop);
        if let Some(m) = self.meddle.take() { self.meddle = Some(m.inside()); }
        !stop
    }
    fn data(&mut self, name: u8, d: &[u8]) -> bool {
        for &b in d { self.obs.push(tok(name, b as u64)); }
        if d.is_empty() { self.empty_data = true; }
        self.ret(name)
    }
    fn data_fin(&mut self, name: u8, end: u8, d: &[u8], fin: bool) -> bool {
        for &b in d { self.obs.push(tok(name, b as u64)); }
        if d.is_empty() && !fin { self.empty_data = true; }
        if fin { self.obs.push(tok(end, 0)); self.ret(end) } else { self.ret(name) }
    }
    fn event(&mut self, name: u8, args: &[u64]) -> bool {
        self.obs.push(tok(name, 0));
        for &a in args { self.obs.push(tok(T_ARG, a)); }
        self.ret(name)
    }
}

impl http_box::http1::HttpHandler for H {
    fn content_length(&mut self) -> Option<usize> {
        if self.last != HEADERS_FINISHED { self.bad_ask = true; }
        if let Some(m) = self.meddle.take() { self.meddle = Some(m.inside()); }
        if self.parts == 0 || self.answers.is_empty() { return None; }
        self.answers[(self.parts - 1) % self.answers.len()].map(|n| n as usize)
    }
    fn on_body_finished(&mut self) -> bool { self.event(BODY_FINISHED, &[]) }
    fn on_chunk_begin(&mut self) -> bool { self.event(CHUNK_BEGIN, &[]) }
    fn on_chunk_data(&mut self, d: &[u8]) -> bool { self.data(CHUNK, d) }
    fn on_chunk_extension_finished(&mut self) -> bool { self.event(EXT_FINISHED, &[]) }
    fn on_chunk_extension_name(&mut self, d: &[u8]) -> bool { self.data(XNAME, d) }
    fn on_chunk_extension_value(&mut self, d: &[u8]) -> bool { self.data(XVALUE, d) }
    fn on_chunk_extensions_finished(&mut self) -> bool { self.event(EXTS_FINISHED, &[]) }
    fn on_chunk_length(&mut self, n: usize) -> bool { self.event(CHUNK_LENGTH, &[n as u64]) }
    fn on_header_name(&mut self, d: &[u8]) -> bool { self.data(HNAME, d) }
    fn on_header_value(&mut self, d: &[u8]) -> bool { self.data(HVALUE, d) }
    fn on_headers_finished(&mut self) -> bool { self.event(HEADERS_FINISHED, &[]) }
    fn on_initial_finished(&mut self) -> bool { self.event(INITIAL_FINISHED, &[]) }
    fn on_method(&mut self, d: &[u8]) -> bool { self.data(METHOD, d) }
    fn on_multipart_begin(&mut self) -> bool { self.parts += 1; self.event(MULTIPART_BEGIN, &[]) }
    fn on_multipart_data(&mut self, d: &[u8]) -> bool { self.data(PART, d) }
    fn on_status(&mut self, d: &[u8]) -> bool { self.data(STATUS, d) }
    fn on_status_code(&mut self, n: u16) -> bool { self.event(STATUS_CODE, &[n as u64]) }
    fn on_url(&mut self, d: &[u8]) -> bool { self.data(URL, d) }
    fn on_url_encoded_begin(&mut self) -> bool { self.event(URL_BEGIN, &[]) }
    fn on_url_encoded_name(&mut self, d: &[u8]) -> bool { self.data(UNAME, d) }
    fn on_url_encoded_value(&mut self, d: &[u8]) -> bool { self.data(UVALUE, d) }
    fn on_version(&mut self, a: u16, b: u16) -> bool { self.event(VERSION, &[a as u64, b as u64]) }
}

impl http_box::http2::HttpHandler for H {
    fn on_data(&mut self, d: &[u8], f: bool) -> bool { self.data_fin(DATA, DATA_END, d, f) }
    fn on_frame_format(&mut self, l: u32, t: u8, f: u8, s: u32) -> bool {
        self.event(FRAME_FORMAT, &[l as u64, t as u64, f as u64, s as u64])
    }
    fn on_go_away(&mut self, s: u32, e: u32) -> bool { self.event(GO_AWAY, &[s as u64, e as u64]) }
    fn on_go_away_debug_data(&mut self, d: &[u8], f: bool) -> bool { self.data_fin(DEBUG, DEBUG_END, d, f) }
    fn on_headers(&mut self, e: bool, s: u32, w: u8) -> bool { self.event(HEADERS, &[e as u64, s as u64, w as u64]) }
    fn on_headers_fragment(&mut self, d: &[u8], f: bool) -> bool { self.data_fin(FRAGMENT, FRAGMENT_END, d, f) }
    fn on_ping(&mut self, d: &[u8], f: bool) -> bool { self.data_fin(PING, PING_END, d, f) }
    fn on_priority(&mut self, e: bool, s: u32, w: u8) -> bool { self.event(PRIORITY, &[e as u64, s as u64, w as u64]) }
    fn on_push_promise(&mut self, s: u32) -> bool { self.event(PUSH_PROMISE, &[s as u64]) }
    fn on_rst_stream(&mut self, e: u32) -> bool { self.event(RST_STREAM, &[e as u64]) }
    fn on_settings(&mut self, i: u16, v: u32) -> bool { self.event(SETTINGS, &[i as u64, v as u64]) }
    fn on_unsupported(&mut self, d: &[u8], f: bool) -> bool { self.data_fin(UNSUPPORTED, UNSUPPORTED_END, d, f) }
    fn on_window_update(&mut self, n: u32) -> bool { self.event(WINDOW_UPDATE, &[n as u64]) }
}

#[derive(Clone, Debug, PartialEq)]
pub enum R { Eos(usize), Callback(usize), Finished(usize), Err(String, Option<u8>) }

pub trait Target {
    fn resume(&mut self, h: &mut H, s: &[u8]) -> R;
    fn count(&self) -> usize;
    fn dead(&self) -> bool;
    fn finished(&self) -> bool;
    /// the part of a message that state() names
    fn phase(&self) -> u8;
}

thread_local! { static PHASE: std::cell::RefCell<[[Option<u8>; 256]; 2]> = const { std::cell::RefCell::new([[None; 256]; 2]) }; }
fn cached(proto: usize, n: u8, f: impl Fn() -> String) -> u8 {
    PHASE.with(|c| *c.borrow_mut()[proto][n as usize].get_or_insert_with(|| phase_of(&f())))
}

use http_box::fsm::Success;
impl Target for http_box::http1::Parser<'static, H> {
    fn resume(&mut self, h: &mut H, s: &[u8]) -> R {
        use http_box::http1::ParserError as E;
        match http_box::http1::Parser::resume(self, h, s) {
            Ok(Success::Eos(n)) => R::Eos(n),
            Ok(Success::Callback(n)) => R::Callback(n),
            Ok(Success::Finished(n)) => R::Finished(n),
            Err(e) => {
                let (k, b) = match e {
                    E::ChunkExtensionName(b) => ("ChunkExtensionName", Some(b)),
                    E::ChunkExtensionValue(b) => ("ChunkExtensionValue", Some(b)),
                    E::ChunkLength(b) => ("ChunkLength", Some(b)),
                    E::CrlfSequence(b) => ("CrlfSequence", Some(b)),
                    E::Dead => ("Dead", None),
                    E::HeaderName(b) => ("HeaderName", Some(b)),
                    E::HeaderValue(b) => ("HeaderValue", Some(b)),
                    E::Method(b) => ("Method", Some(b)),
                    E::MultipartBoundary(b) => ("MultipartBoundary", Some(b)),
                    E::Status(b) => ("Status", Some(b)),
                    E::StatusCode(b) => ("StatusCode", Some(b)),
                    E::Url(b) => ("Url", Some(b)),
                    E::UrlEncodedName(b) => ("UrlEncodedName", Some(b)),
                    E::UrlEncodedValue(b) => ("UrlEncodedValue", Some(b)),
                    E::Version(b) => ("Version", Some(b)),
                    _ => ("Other", None),
                };
                R::Err(k.to_string(), b)
            }
        }
    }
    fn count(&self) -> usize { self.byte_count() }
    fn dead(&self) -> bool { self.state() == http_box::http1::ParserState::Dead }
    fn finished(&self) -> bool { self.state() == http_box::http1::ParserState::Finished }
    fn phase(&self) -> u8 { let s = self.state(); cached(0, s as u8, || format!("{:?}", s)) }
}

impl Target for http_box::http2::Parser<'static, H> {
    fn resume(&mut self, h: &mut H, s: &[u8]) -> R {
        match http_box::http2::Parser::resume(self, h, s) {
            Ok(Success::Eos(n)) => R::Eos(n),
            Ok(Success::Callback(n)) => R::Callback(n),
            Ok(Success::Finished(n)) => R::Finished(n),
            Err(e) => {
                let s = format!("{:?}", e);
                let s = s.trim_start_matches("<ParserError::").trim_end_matches('>').to_string();
                R::Err(s, None)
            }
        }
    }
    fn count(&self) -> usize { self.byte_count() }
    fn dead(&self) -> bool { self.state() == http_box::http2::ParserState::Dead }
    fn finished(&self) -> bool { self.state() == http_box::http2::ParserState::Finished }
    fn phase(&self) -> u8 { let s = self.state(); cached(1, s as u8, || format!("{:?}", s)) }
}

/// Kinds of divergence.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Dk { Event, Accept, ErrInfo, Ret, Account, State, Panic, Where }

#[derive(Clone, Debug)]
pub struct Div { pub kind: Dk, pub loc: u32, pub at: usize, pub detail: String }

pub fn show(t: &[u64], from: usize) -> String {
    let mut s = String::new();
    let lo = from.saturating_sub(4);
    for (i, &x) in t.iter().enumerate().skip(lo).take(16) {
        if i == from { s.push_str(">>"); }
        if tname(x) == T_ARG { s.push_str(&format!("({})", tval(x))); }
        else { s.push_str(&format!(" {}", NAMES[tname(x) as usize]));
               if tval(x) != 0 { s.push_str(&format!(":{:?}", tval(x) as u8 as char)); } }
    }
    s
}

pub struct Plan<'a> { pub cuts: &'a [usize], pub low: bool, pub empties: bool, pub probe: bool, pub place: bool }

/// What a parser that is done is passed: a few slices, sometimes a long one, sometimes many.
fn probes(rest: &[u8], count: usize) -> Vec<std::borrow::Cow<'static, [u8]>> {
    use std::borrow::Cow;
    let mut h = 0xCBF2_9CE4_8422_2325u64 ^ count as u64;
    for &b in rest.iter().take(16) { h = (h ^ b as u64).wrapping_mul(0x100_0000_01B3); }
    let mut r = crate::rng::Rng::new(h, 77);
    let mut out: Vec<Cow<'static, [u8]>> = vec![Cow::Owned(rest.to_vec()), Cow::Borrowed(&b"GET / HTTP/1.1\r\n\r\n"[..]), Cow::Borrowed(&b""[..])];
    if r.chance(2) {
        let n = if r.chance(50) { 70_000 } else { crate::gen::some_len(&mut r, 70_000) as usize };
        let b = *r.pick(&[b'x', 0, 13, 10, 255]);
        out.insert(r.usize(3), Cow::Owned(vec![b; n]));
    }
    if r.below(400) == 0 { for _ in 0..300 { out.push(Cow::Borrowed(&b"\r\n"[..])); } }
    out
}

/// Feeds `input` in the given slices and compares.  Returns the bytes consumed.
pub fn exec<P: Target>(t: &Table, p: &mut P, h: &mut H, g: &Guard, exp: &Exp, input: &[u8], plan: &Plan)
                       -> Result<usize, Div> {
    let stop = match exp.end { End::Sink(n) => n, _ => input.len() };
    let loc_of = |j: usize| -> (u32, usize) {
        // the state in which token j is due
        let i = exp.cum.partition_point(|&c| c as usize <= j);
        let i = i.saturating_sub(1).min(exp.loc.len() - 1);
        (exp.loc[i], i)
    };
    let loc_at = |pos: usize| -> u32 { exp.loc[pos.min(exp.loc.len() - 1)] };
    macro_rules! div { ($k:expr, $loc:expr, $at:expr, $($a:tt)*) => {
        return Err(Div { kind: $k, loc: $loc, at: $at, detail: format!($($a)*) }) } }

    let (mut pos, mut del, mut k, mut flush) = (0usize, 0usize, 0usize, 0);
    let bc0 = p.count();
    let mut want_empty = plan.empties;
    loop {
        while k < plan.cuts.len() && plan.cuts[k] <= pos { k += 1; }
        let end = if k < plan.cuts.len() { plan.cuts[k].min(stop) } else { stop };
        let empty = want_empty && del > 0;
        let chunk = if empty { &input[pos..pos] } else { &input[pos..end] };
        want_empty = plan.empties && !empty;
        h.in_call = 0; h.last_false = false; h.rets.clear();
        let r = p.resume(h, g.place(chunk, plan.low));
        let n = match r { R::Eos(n) | R::Callback(n) | R::Finished(n) => n, _ => 0 };
        if n > chunk.len() { div!(Dk::Account, loc_at(pos), pos, "consumed {} of a slice of {}", n, chunk.len()); }
        let newpos = pos + n;
        // tokens
        while del < h.obs.len() {
            if del >= exp.toks.len() || h.obs[del] != exp.toks[del] {
                let (l, at) = if del < exp.toks.len() { loc_of(del) } else { (loc_at(exp.loc.len()), exp.loc.len()) };
                div!(Dk::Event, l, at, "got {} expected {}", show(&h.obs, del), show(&exp.toks, del));
            }
            del += 1;
        }
        if h.bad_ask { div!(Dk::Event, loc_at(newpos), newpos, "content_length() asked before the headers of the part were finished"); }
        if h.empty_data { div!(Dk::Event, loc_at(newpos), newpos, "a callback without data: {}", NAMES[h.last as usize]); }
        if h.after_false { div!(Dk::Ret, loc_at(newpos), newpos, "a callback followed one that returned false"); }
        let lim = |i: usize| exp.cum[i.min(exp.cum.len() - 1)] as usize;
        let epos = match exp.end { End::Fin(n) => n, End::Err { pos, .. } => pos, _ => usize::MAX };
        match r {
            R::Eos(_) => {
                if h.last_false { div!(Dk::Ret, loc_at(newpos), newpos, "Eos although the last callback returned false"); }
                if n != chunk.len() { div!(Dk::Account, loc_at(newpos), newpos, "Eos({}) on a slice of {}", n, chunk.len()); }
                if newpos >= epos && !chunk.is_empty() {
                    let l = loc_at(epos.max(1) - 1);
                    match exp.end {
                        End::Err { kind, byte, .. } => div!(Dk::Accept, l, epos, "expected error {} on byte {} at {}, got Eos", t.kinds[kind as usize - 1], byte, epos),
                        _ => div!(Dk::Ret, l, epos, "expected Finished at {}, got Eos", epos),
                    }
                }
                if !chunk.is_empty() && del != lim(newpos) {
                    let (l, at) = loc_of(del);
                    div!(Dk::Event, l, at, "after {} bytes got {} of {} tokens, missing {}", newpos, del, lim(newpos), show(&exp.toks, del));
                }
            },
            R::Callback(_) => {
                if !h.last_false { div!(Dk::Ret, loc_at(newpos), newpos, "Callback although no callback returned false"); }
                if newpos > epos { div!(Dk::Account, loc_at(epos), epos, "consumed {} bytes past the end at {}", newpos, epos); }
                // a callback may look at the byte that it leaves; a boundary is looked at as a whole
                let at = &t.states[loc_at(newpos) as usize];
                let look = if at.c == "Bnd" { t.boundaries[at.bd - 1].len() + 1 } else { 1 };
                if del > lim(newpos + look) { div!(Dk::Account, loc_at(newpos), newpos, "{} tokens delivered after {} bytes, at most {} due", del, newpos, lim(newpos + 1)); }
                if del < lim(newpos.max(1) - 1) { let (l, at) = loc_of(del);
                    div!(Dk::Event, l, at, "{} tokens delivered after {} bytes, missing {}", del, newpos, show(&exp.toks, del)); }
            },
            R::Finished(_) => {
                if h.last_false { div!(Dk::Ret, loc_at(newpos), newpos, "Finished although the last callback returned false"); }
                match exp.end {
                    End::Fin(e) => {
                        if e != newpos { div!(Dk::Account, loc_at(newpos), newpos, "Finished after {} bytes instead of {}", newpos, e); }
                        if del != exp.toks.len() { let (l, at) = loc_of(del);
                            div!(Dk::Event, l, at, "finished without {}", show(&exp.toks, del)); }
                    },
                    _ => div!(Dk::Accept, loc_at(newpos.max(1) - 1), newpos, "Finished after {} bytes, expected {:?}", newpos, exp.end),
                }
            },
            R::Err(ref kind, byte) => {
                let used = p.count().wrapping_sub(bc0);
                match exp.end {
                    End::Err { pos: e, kind: ek, byte: eb } => {
                        let l = loc_at(e - 1);
                        let ek = &t.kinds[ek as usize - 1];
                        // the boundary is compared a piece at a time, so position and byte vary
                        let piece = t.states[l as usize].c == "Bnd";
                        if chunk.len() + pos < e { div!(Dk::Accept, loc_at(pos), pos, "error {} before the offending byte at {}", kind, e); }
                        if ek != kind { div!(Dk::ErrInfo, l, e, "error {} instead of {} on byte {} at {}", kind, ek, eb, e); }
                        if !piece {
                            if let Some(b) = byte { if b != eb { div!(Dk::ErrInfo, l, e, "error {} reports byte {} instead of {} at {}", kind, b, eb, e); } }
                            if used != e { div!(Dk::Account, l, e, "{} bytes counted when byte {} is wrong", used, e); }
                        }
                        // what is missing is one unfinished run of data
                        let mut rest = exp.toks[del..].iter().map(|&x| tname(x));
                        if let Some(first) = rest.next() {
                            if t.class[first as usize] != b'd' || rest.any(|x| x != first) {
                                let (l, at) = loc_of(del);
                                div!(Dk::Event, l, at, "failed without {}", show(&exp.toks, del));
                            }
                        }
                    },
                    _ => div!(Dk::Accept, loc_at(if used > 0 { used - 1 } else { pos }), pos, "error {} on byte {:?} after {} bytes, expected {:?}", kind, byte, used, exp.end),
                }
                if !p.dead() { div!(Dk::State, loc_at(epos - 1), epos, "state() is not Dead after an error"); }
                if plan.probe {
                    // an error is final
                    let before = h.obs.len();
                    for again in probes(chunk, pos) {
                        let c = p.count();
                        let r = p.resume(h, g.place(&again, plan.low));
                        if r != R::Err("Dead".to_string(), None) { div!(Dk::State, loc_at(epos - 1), epos, "{:?} after an error, expected Dead", r); }
                        if h.obs.len() != before { div!(Dk::State, loc_at(epos - 1), epos, "callbacks after an error"); }
                        if p.count() != c || !p.dead() { div!(Dk::State, loc_at(epos - 1), epos, "byte count or state changed after an error"); }
                    }
                }
                return Ok(epos);
            },
        }
        if p.count().wrapping_sub(bc0) != newpos { div!(Dk::Account, loc_at(newpos), newpos, "byte_count() advanced by {} after {} bytes", p.count().wrapping_sub(bc0), newpos); }
        if p.dead() { div!(Dk::State, loc_at(newpos), newpos, "state() is Dead without an error"); }
        if plan.place && (matches!(r, R::Eos(_)) || (matches!(r, R::Callback(_)) && n == chunk.len() && del == lim(newpos))) && !chunk.is_empty() {
            let want = t.states[exp.loc.get(newpos).cloned().unwrap_or(exp.last) as usize].phase;
            if want != 0 && p.phase() != 0 && p.phase() != want {
                div!(Dk::Where, loc_at(newpos), newpos, "state() names {:?} and not {:?} after {} bytes", phase_name(p.phase()), phase_name(want), newpos);
            }
        }
        let fin = matches!(r, R::Finished(_));
        // after the last callback was interrupted, the message is finished and the call was not
        let over = exp.end == End::Fin(newpos) && del == exp.toks.len() && matches!(r, R::Callback(_));
        if (fin || over) != p.finished() { div!(Dk::State, loc_at(newpos), newpos, "state() finished: {} after {:?}", p.finished(), r); }
        if fin {
            if plan.probe {
                let before = h.obs.len();
                let c = p.count();
                for again in probes(&input[newpos..], newpos) {
                    let r = p.resume(h, g.place(&again, plan.low));
                    if r != R::Finished(0) || h.obs.len() != before || p.count() != c || !p.finished() {
                        div!(Dk::State, loc_at(newpos), newpos, "{:?} with {} callbacks after the message was finished", r, h.obs.len() - before);
                    }
                }
            }
            return Ok(newpos);
        }
        // done?
        if newpos == stop && !empty {
            let cb = matches!(r, R::Callback(_));
            // what is due without a further byte comes with the next call
            if cb && flush < 12 { flush += 1; pos = newpos; continue; }
            if !chunk.is_empty() || flush > 0 || exp.end == End::Fin(0) {
                match exp.end {
                    End::Fin(e) if e <= stop => div!(Dk::Ret, loc_at(e.max(1) - 1), e, "expected Finished at {}, got {:?}", e, r),
                    End::Err { pos: e, .. } if e <= stop => div!(Dk::Accept, loc_at(e - 1), e, "expected an error at {}, got {:?}", e, r),
                    _ => {}
                }
                if !cb && del != lim(newpos) { let (l, at) = loc_of(del);
                    div!(Dk::Event, l, at, "after {} bytes got {} of {} tokens, missing {}", newpos, del, lim(newpos), show(&exp.toks, del)); }
            }
            return Ok(newpos);
        }
        if n == 0 && chunk.len() > 0 && matches!(r, R::Callback(_)) {
            flush += 1;
            if flush > 64 { div!(Dk::Ret, loc_at(newpos), newpos, "no progress"); }
        } else { flush = 0; }
        pos = newpos;
    }
}
