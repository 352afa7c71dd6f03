// Recording handlers for the demonstrations.
#![allow(dead_code)]
use http_box::http1::{HttpHandler as H1, Parser as P1};
use http_box::http2::{HttpHandler as H2, Parser as P2};
use http_box::fsm::Success;

#[derive(Default)]
pub struct Rec {
    pub log: Vec<(String, Vec<u8>)>,
    /// numbers of the callbacks that interrupt (all = 0)
    pub stop: Vec<usize>,
    pub stop_all: bool,
    pub calls: usize,
    pub part: Option<usize>,
}

impl Rec {
    fn put(&mut self, n: &str, d: &[u8]) -> bool {
        self.calls += 1;
        match self.log.last_mut() {
            // pieces of one value belong together
            Some(l) if l.0 == n => l.1.extend_from_slice(d),
            _ => self.log.push((n.to_string(), d.to_vec())),
        }
        !(self.stop_all || self.stop.contains(&self.calls))
    }
    fn ev(&mut self, n: String) -> bool {
        self.calls += 1;
        self.log.push((n, vec![]));
        !(self.stop_all || self.stop.contains(&self.calls))
    }
    pub fn text(&self) -> String {
        self.log.iter().map(|(n, d)| {
            if d.is_empty() { n.clone() } else { format!("{}={}", n, d.iter().map(|&b| std::ascii::escape_default(b).to_string()).collect::<String>()) }
        }).collect::<Vec<_>>().join(" ")
    }
}

impl H1 for Rec {
    fn content_length(&mut self) -> Option<usize> { self.part }
    fn on_body_finished(&mut self) -> bool { self.ev("end".into()) }
    fn on_chunk_begin(&mut self) -> bool { self.ev("chunk".into()) }
    fn on_chunk_data(&mut self, d: &[u8]) -> bool { self.put("data", d) }
    fn on_chunk_extension_finished(&mut self) -> bool { self.ev("ext.".into()) }
    fn on_chunk_extension_name(&mut self, d: &[u8]) -> bool { self.put("ename", d) }
    fn on_chunk_extension_value(&mut self, d: &[u8]) -> bool { self.put("evalue", d) }
    fn on_chunk_extensions_finished(&mut self) -> bool { self.ev("exts.".into()) }
    fn on_chunk_length(&mut self, n: usize) -> bool { self.ev(format!("length:{}", n)) }
    fn on_header_name(&mut self, d: &[u8]) -> bool { self.put("name", d) }
    fn on_header_value(&mut self, d: &[u8]) -> bool { self.put("value", d) }
    fn on_headers_finished(&mut self) -> bool { self.ev("headers.".into()) }
    fn on_initial_finished(&mut self) -> bool { self.ev("initial.".into()) }
    fn on_method(&mut self, d: &[u8]) -> bool { self.put("method", d) }
    fn on_multipart_begin(&mut self) -> bool { self.ev("part".into()) }
    fn on_multipart_data(&mut self, d: &[u8]) -> bool { self.put("pdata", d) }
    fn on_status(&mut self, d: &[u8]) -> bool { self.put("status", d) }
    fn on_status_code(&mut self, c: u16) -> bool { self.ev(format!("code:{}", c)) }
    fn on_url(&mut self, d: &[u8]) -> bool { self.put("url", d) }
    fn on_url_encoded_begin(&mut self) -> bool { self.ev("pair".into()) }
    fn on_url_encoded_name(&mut self, d: &[u8]) -> bool { self.put("uname", d) }
    fn on_url_encoded_value(&mut self, d: &[u8]) -> bool { self.put("uvalue", d) }
    fn on_version(&mut self, a: u16, b: u16) -> bool { self.ev(format!("version:{}.{}", a, b)) }
}

impl H2 for Rec {
    fn on_data(&mut self, d: &[u8], f: bool) -> bool { let r = self.put("data", d); if f { self.log.push(("data.".into(), vec![])) } r }
    fn on_frame_format(&mut self, l: u32, t: u8, g: u8, s: u32) -> bool { self.ev(format!("frame:{},{},{},{}", l, t, g, s)) }
    fn on_go_away(&mut self, s: u32, e: u32) -> bool { self.ev(format!("goaway:{},{}", s, e)) }
    fn on_go_away_debug_data(&mut self, d: &[u8], f: bool) -> bool { let r = self.put("debug", d); if f { self.log.push(("debug.".into(), vec![])) } r }
    fn on_headers(&mut self, x: bool, s: u32, w: u8) -> bool { self.ev(format!("headers:{},{},{}", x, s, w)) }
    fn on_headers_fragment(&mut self, d: &[u8], f: bool) -> bool { let r = self.put("frag", d); if f { self.log.push(("frag.".into(), vec![])) } r }
    fn on_ping(&mut self, d: &[u8], f: bool) -> bool { let r = self.put("ping", d); if f { self.log.push(("ping.".into(), vec![])) } r }
    fn on_priority(&mut self, x: bool, s: u32, w: u8) -> bool { self.ev(format!("priority:{},{},{}", x, s, w)) }
    fn on_push_promise(&mut self, s: u32) -> bool { self.ev(format!("promise:{}", s)) }
    fn on_rst_stream(&mut self, e: u32) -> bool { self.ev(format!("rst:{}", e)) }
    fn on_settings(&mut self, i: u16, v: u32) -> bool { self.ev(format!("setting:{},{}", i, v)) }
    fn on_unsupported(&mut self, d: &[u8], f: bool) -> bool { let r = self.put("unk", d); if f { self.log.push(("unk.".into(), vec![])) } r }
    fn on_window_update(&mut self, n: u32) -> bool { self.ev(format!("window:{}", n)) }
}

/// Feeds the slices, each again from where an interruption left it; the last result is appended.
pub fn feed1<'a>(p: &mut P1<'a, Rec>, h: &mut Rec, slices: &[&[u8]]) -> String {
    let mut last = String::new();
    for s in slices {
        let mut at = 0;
        loop {
            match p.resume(h, &s[at..]) {
                Ok(Success::Callback(n)) => { at += n; last = format!("callback:{}", n); }
                Ok(Success::Eos(n)) => { last = format!("eos:{}", n); break; }
                Ok(Success::Finished(n)) => { last = format!("finished:{}", n); break; }
                Err(e) => { return format!("{} {}", h.text(), e); }
            }
        }
        if last.starts_with("finished") { break; }
    }
    format!("{} {}", h.text(), last)
}

pub fn feed2<'a>(p: &mut P2<'a, Rec>, h: &mut Rec, slices: &[&[u8]]) -> String {
    let mut last = String::new();
    for s in slices {
        let mut at = 0;
        loop {
            match p.resume(h, &s[at..]) {
                Ok(Success::Callback(n)) => { at += n; last = format!("callback:{}", n); }
                Ok(Success::Eos(n)) => { last = format!("eos:{}", n); break; }
                Ok(Success::Finished(n)) => { last = format!("finished:{}", n); break; }
                Err(e) => { return format!("{} {:?}", h.text(), e); }
            }
        }
    }
    format!("{} {}", h.text(), last)
}

pub fn head(slices: &[&[u8]]) -> String { feed1(&mut P1::new(), &mut Rec::default(), slices) }
pub fn chunked(slices: &[&[u8]]) -> String { let mut p = P1::new(); p.init_chunked(); feed1(&mut p, &mut Rec::default(), slices) }
pub fn multipart(b: &[u8], part: Option<usize>, slices: &[&[u8]]) -> String {
    let mut p = P1::new(); p.init_multipart(); p.set_boundary(b);
    feed1(&mut p, &mut Rec { part, ..Rec::default() }, slices)
}
pub fn url(n: usize, slices: &[&[u8]]) -> String { let mut p = P1::new(); p.init_url_encoded(); p.set_length(n); feed1(&mut p, &mut Rec::default(), slices) }
pub fn h2(slices: &[&[u8]]) -> String { feed2(&mut P2::new(), &mut Rec::default(), slices) }

/// One slice per byte.
pub fn bytes(s: &[u8]) -> Vec<&[u8]> { s.chunks(1).collect() }

pub fn same(what: &str, got: String, want: &str) {
    if got.trim() != want.trim() {
        eprintln!("{}:\n  got  {}\n  want {}", what, got, want);
        std::process::exit(1);
    }
}

pub struct It(pub Vec<(String, Option<String>)>, pub Vec<String>);
pub fn query(q: &[u8]) -> (Vec<(String, Option<String>)>, Vec<String>) {
    let mut errs = vec![]; let mut v = vec![];
    { let mut it = http_box::util::QueryIterator::new(q); it.on_error(|e| errs.push(format!("{}", e)));
      for _ in 0..q.len() + 2 { match it.next() { Some(x) => v.push(x), None => break } } }
    (v, errs)
}
pub fn field(q: &[u8], d: u8, n: bool) -> (Vec<(String, Option<String>)>, Vec<String>) {
    let mut errs = vec![]; let mut v = vec![];
    { let mut it = http_box::util::FieldIterator::new(q, d, n); it.on_error(|e| errs.push(format!("{}", e)));
      for _ in 0..q.len() + 2 { match it.next() { Some(x) => v.push(x), None => break } } }
    (v, errs)
}
