//! Messages of more than 2^32 bytes.  The specification counts lengths abstractly: in a state in which
//! n bytes of data are due, a slice of k < n bytes is k bytes of data and leaves n - k, whatever n is.
use crate::rng::Rng;
use http_box::fsm::Success;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Found { pub tags: Vec<&'static str>, pub text: String }

/// Data callbacks are compared with what is due, the others are only named.
struct G { pos: *const u8, data: u64, other: Vec<(&'static str, u64)>, bad: bool, answer: Option<u64> }

impl G {
    fn new(answer: Option<u64>) -> G { G { pos: std::ptr::null(), data: 0, other: vec![], bad: false, answer } }
    fn data(&mut self, d: &[u8]) -> bool {
        if !self.pos.is_null() {
            // the same bytes of the same slice, or equal ones
            if d.as_ptr() != self.pos && d != unsafe { std::slice::from_raw_parts(self.pos, d.len()) } { self.bad = true; }
            self.pos = unsafe { self.pos.add(d.len()) };
        } else if !d.is_empty() { self.bad = true; }
        self.data += d.len() as u64;
        true
    }
    fn note(&mut self, s: &'static str, n: u64) -> bool { self.other.push((s, n)); true }
}

impl http_box::http1::HttpHandler for G {
    fn content_length(&mut self) -> Option<usize> { self.answer.map(|n| n as usize) }
    fn on_body_finished(&mut self) -> bool { self.note("body_finished", 0) }
    fn on_chunk_data(&mut self, d: &[u8]) -> bool { self.data(d) }
    fn on_chunk_length(&mut self, n: usize) -> bool { self.note("chunk_length", n as u64) }
    fn on_multipart_data(&mut self, d: &[u8]) -> bool { self.data(d) }
    fn on_url_encoded_name(&mut self, d: &[u8]) -> bool { self.data(d) }
    fn on_url_encoded_value(&mut self, _: &[u8]) -> bool { self.note("value", 0) }
    fn on_header_value(&mut self, d: &[u8]) -> bool { self.data(d) }
    fn on_headers_finished(&mut self) -> bool { self.note("headers_finished", 0) }
}

impl http_box::http2::HttpHandler for G {
    fn on_frame_format(&mut self, l: u32, t: u8, _: u8, _: u32) -> bool { self.note("frame", (l as u64) << 8 | t as u64) }
    fn on_data(&mut self, d: &[u8], f: bool) -> bool { self.data(d); if f { self.note("end", 0); } true }
    fn on_unsupported(&mut self, d: &[u8], f: bool) -> bool { self.data(d); if f { self.note("end", 0); } true }
    fn on_go_away_debug_data(&mut self, d: &[u8], f: bool) -> bool { self.data(d); if f { self.note("end", 0); } true }
    fn on_headers_fragment(&mut self, d: &[u8], f: bool) -> bool { self.data(d); if f { self.note("end", 0); } true }
}

trait P { fn go(&mut self, h: &mut G, s: &[u8]) -> Result<Success, String>; fn count(&self) -> usize; }
impl P for http_box::http1::Parser<'static, G> {
    fn go(&mut self, h: &mut G, s: &[u8]) -> Result<Success, String> { self.resume(h, s).map_err(|e| format!("{:?}", e)) }
    fn count(&self) -> usize { self.byte_count() }
}
impl P for http_box::http2::Parser<'static, G> {
    fn go(&mut self, h: &mut G, s: &[u8]) -> Result<Success, String> { self.resume(h, s).map_err(|e| format!("{:?}", e)) }
    fn count(&self) -> usize { self.byte_count() }
}

/// `total` bytes of data in slices of `buf`; they are all to be delivered.
fn flood<T: P>(p: &mut T, h: &mut G, buf: &[u8], total: u64, last: bool, r: &mut Rng) -> Result<(), String> {
    let mut left = total;
    while left > 0 {
        let from = r.usize(64);
        let most = if r.chance(70) { buf.len() } else { 1 + r.usize(buf.len() - 1) };
        let n = ((most - from.min(most - 1)) as u64).min(left) as usize;
        let s = &buf[from..from + n];
        let (c, d) = (p.count(), h.data);
        h.pos = s.as_ptr();
        let x = p.go(h, s)?;
        let done = left == n as u64;
        let want = if done && last { Success::Finished(n) } else { Success::Eos(n) };
        if x != want { return Err(format!("{:?} instead of {:?} with {} bytes to go", x, want, left)); }
        if h.data - d != n as u64 || h.bad { return Err(format!("{} bytes of {} delivered with {} to go", h.data - d, n, left)); }
        if p.count() != c.wrapping_add(n) { return Err(format!("byte_count() went from {} to {} with {} bytes", c, p.count(), n)); }
        left -= n as u64;
    }
    h.pos = std::ptr::null();
    Ok(())
}

fn small<T: P>(p: &mut T, h: &mut G, s: &[u8], want: Success) -> Result<(), String> {
    let c = p.count();
    h.pos = std::ptr::null();
    let x = p.go(h, s)?;
    if x != want { return Err(format!("{:?} instead of {:?} after {:?}", x, want, String::from_utf8_lossy(s))); }
    let n = match want { Success::Eos(n) | Success::Callback(n) | Success::Finished(n) => n };
    if p.count() != c.wrapping_add(n) { return Err(format!("byte_count() went from {} to {}", c, p.count())); }
    Ok(())
}

fn others(h: &mut G, want: &[(&'static str, u64)]) -> Result<(), String> {
    if h.other != want { return Err(format!("callbacks {:?} instead of {:?}", h.other, want)); }
    h.other.clear();
    Ok(())
}

fn chunked(buf: &[u8], r: &mut Rng) -> Result<(), String> {
    let (mut p, mut h) = (http_box::http1::Parser::<'static, G>::new(), G::new(None));
    p.init_chunked();
    for (text, n) in [("FFFFFFFF\r\n", 0xFFFF_FFFFu64), ("80000000\r\n", 1 << 31), ("5\r\n", 5)] {
        small(&mut p, &mut h, text.as_bytes(), Success::Eos(text.len()))?;
        others(&mut h, &[("chunk_length", n)])?;
        flood(&mut p, &mut h, buf, n, false, r)?;
        small(&mut p, &mut h, b"\r\n", Success::Eos(2))?;
    }
    small(&mut p, &mut h, b"0\r\n\r\nX", Success::Finished(5))?;
    others(&mut h, &[("chunk_length", 0), ("headers_finished", 0), ("body_finished", 0)])
}

fn multipart(buf: &[u8], r: &mut Rng) -> Result<(), String> {
    let (mut p, mut h) = (http_box::http1::Parser::<'static, G>::new(), G::new(None));
    p.init_multipart();
    p.set_boundary(b"xy");
    let mut s: &[u8] = b"--xy\r\n\r\n";
    for n in [(1u64 << 32) + 3, (1 << 32) - 1, 1 << 31] {
        h.answer = Some(n);
        small(&mut p, &mut h, s, Success::Eos(s.len()))?;
        others(&mut h, &[("headers_finished", 0)])?;
        flood(&mut p, &mut h, buf, n, false, r)?;
        s = b"\r\n--xy\r\n\r\n";
    }
    small(&mut p, &mut h, b"\r\n--xy--X", Success::Finished(8))?;
    others(&mut h, &[("body_finished", 0)])
}

fn url(buf: &[u8], r: &mut Rng) -> Result<(), String> {
    let (mut p, mut h) = (http_box::http1::Parser::<'static, G>::new(), G::new(None));
    let n = (1u64 << 32) + 9;
    p.init_url_encoded();
    p.set_length(n as usize);
    flood(&mut p, &mut h, buf, n, true, r)?;
    small(&mut p, &mut h, b"X", Success::Finished(0))?;
    others(&mut h, &[("body_finished", 0)])
}

fn frames(buf: &[u8], r: &mut Rng) -> Result<(), String> {
    let (mut p, mut h) = (http_box::http2::Parser::<'static, G>::new(), G::new(None));
    for k in 0..262u64 {
        let ty = [0u8, 1, 9, 0x1F, 0xFF][r.usize(5)];
        let n = 0xFF_FFFF - if k % 3 == 0 { r.below(3) } else { 0 };
        small(&mut p, &mut h, &[(n >> 16) as u8, (n >> 8) as u8, n as u8, ty, 0, 0, 0, 0, 1], Success::Eos(9))?;
        others(&mut h, &[("frame", n << 8 | ty as u64)])?;
        flood(&mut p, &mut h, buf, n, false, r)?;
        others(&mut h, &[("end", 0)])?;
    }
    Ok(())
}

pub fn run(seed: u64, deep: bool, only: &str) -> (u64, Vec<Found>) {
    let buf = vec![b'a'; (1 << 26) + 64];
    let jobs: Vec<(&str, fn(&[u8], &mut Rng) -> Result<(), String>, Vec<&'static str>)> = vec![
        ("chunked", chunked, vec!["C03", "C06"]), ("multipart", multipart, vec!["C03", "C07"]),
        ("url", url, vec!["C03", "C08"]), ("frames", frames, vec!["C12", "C13", "C14"])];
    let mut out = vec![];
    let mut n = 0;
    for (name, f, tags) in jobs {
        if !only.is_empty() && !tags.contains(&only) && only != "C10" { continue; }
        for k in 0..if deep { 8 } else { 1 } {
            n += 1;
            let mut r = Rng::new(seed ^ 0x61A7, k);
            match catch_unwind(AssertUnwindSafe(|| f(&buf, &mut r))) {
                Ok(Ok(())) => {},
                Ok(Err(e)) => { out.push(Found { tags: tags.clone(), text: format!("{} of more than 2^32 bytes: {}", name, e) }); break },
                Err(_) => { out.push(Found { tags: vec!["C10"], text: format!("{} of more than 2^32 bytes: panic", name) }); break },
            }
        }
    }
    (n, out)
}
