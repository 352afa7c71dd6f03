//! A receiver made of the parser and the helpers of the library, as an application would make it:
//! it reads messages that are written one behind the other, whatever the slices and interruptions,
//! and has to learn what spec/Http1Connection.tla and spec/Http2Connection.tla say (C27).
use crate::exec::{Sched, R, Target};
use crate::guard::Guard;
use crate::rng::Rng;
use std::borrow::Cow;
use http_box::util::{decode, FieldIterator, QueryIterator};

pub type Item = (String, Vec<i32>);
#[derive(Clone)]
pub struct Message { pub wire: Vec<u8>, pub items: Vec<Item>, pub stretch: Vec<Vec<usize>> }

pub fn load(path: &str) -> Vec<Message> {
    std::fs::read_to_string(path).unwrap().lines().filter(|l| !l.is_empty()).map(line).collect()
}
pub fn line(l: &str) -> Message {
    let mut p = l.split_whitespace();
    let w = p.next().unwrap();
    let mut m = Message { wire: if w == "-" { vec![] } else { crate::run::unhex(w) }, items: vec![], stretch: vec![] };
    for x in p {
        let (n, v) = x.split_once(':').unwrap();
        let v: Vec<i32> = v.split('.').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
        if n == "@" { m.stretch.push(v.iter().map(|&x| x as usize).collect()); } else { m.items.push((n.to_string(), v)); }
    }
    m
}
pub fn text(m: &Message) -> String {
    let w: String = m.wire.iter().map(|b| format!("{:02x}", b)).collect();
    format!("{} {}", w, m.items.iter().map(|(n, v)| format!("{}:{}", n, v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("."))).collect::<Vec<_>>().join(" "))
}

/// The same message with other data of this length, which is a matter of counting to the specification.
pub fn stretched(m: &Message, which: usize, len: usize) -> Message {
    let s = &m.stretch[which];
    let (np, nl, base, dp, dl, ni, di) = (s[0], s[1], s[2], s[3], s[4], s[5] - 1, s[6] - 1);
    let mut o = m.clone();
    o.stretch.clear();
    let number = match base {
        10 => { let t = len.to_string().into_bytes(); o.items[ni].1 = bytes(&t); t },
        16 => { o.items[ni].1 = digits(&[(len as u64, 16)]); format!("{:x}", len).into_bytes() },
        _ => {
            let old = m.wire[np..np + 3].iter().fold(0, |a, &b| a * 256 + b as usize);
            let new = (old - dl + len).min(0xffffff);
            let f = &mut o.items[ni].1;
            let k = f.iter().position(|&x| x == -1).unwrap();
            f.splice(..k, digits(&[(new as u64, 256)]));
            return finish(m, o, (np, nl, dp, dl, di), new - (old - dl), vec![(new >> 16) as u8, (new >> 8) as u8, new as u8]);
        },
    };
    finish(m, o, (np, nl, dp, dl, di), len, number)
}
fn finish(m: &Message, mut o: Message, (np, nl, dp, dl, di): (usize, usize, usize, usize, usize), len: usize, number: Vec<u8>) -> Message {
    let data: Vec<u8> = m.wire[dp..dp + dl].iter().cycle().take(len).cloned().collect();
    assert_eq!(o.items[di].1, bytes(&m.wire[dp..dp + dl]));
    o.items[di].1 = bytes(&data);
    o.wire = [&m.wire[..np], &number[..], &m.wire[np + nl..dp], &data[..], &m.wire[dp + dl..]].concat();
    o
}

fn bytes(d: &[u8]) -> Vec<i32> { d.iter().map(|&b| b as i32).collect() }
fn digits(ns: &[(u64, u64)]) -> Vec<i32> {
    let mut out = vec![];
    for (i, &(n, base)) in ns.iter().enumerate() {
        if i > 0 { out.push(-1); }
        let (mut k, mut d) = (n, vec![]);
        while k > 0 { d.push((k % base) as i32); k /= base; }
        d.reverse();
        out.extend(d);
    }
    out
}

pub struct App { items: Vec<Item>, sched: Sched, calls: u32, nsched: usize, stopped: bool, after: bool }

impl App {
    pub fn new() -> App { App { items: vec![], sched: Sched::Never, calls: 0, nsched: 0, stopped: false, after: false } }
    fn ret(&mut self) -> bool {
        if self.stopped { self.after = true; }
        self.calls += 1;
        self.stopped = match self.sched {
            Sched::Never => false, Sched::Always => true, Sched::Every(n) => self.calls % n == 0,
            Sched::Nth(ref v) => {
                while self.nsched < v.len() && v[self.nsched] < self.calls { self.nsched += 1; }
                self.nsched < v.len() && v[self.nsched] == self.calls
            },
        };
        !self.stopped
    }
    fn learn(&mut self, name: &str, d: &[u8]) {
        if d.is_empty() { return; }
        match self.items.last_mut() {
            Some(l) if l.0 == name => l.1.extend(bytes(d)),
            _ => self.items.push((name.to_string(), bytes(d))),
        }
    }
    fn data(&mut self, name: &str, d: &[u8]) -> bool { self.learn(name, d); self.ret() }
    fn data_fin(&mut self, name: &str, d: &[u8], fin: bool) -> bool {
        self.learn(name, d);
        if fin { self.items.push((format!("{}_end", name), vec![])); }
        self.ret()
    }
    fn event(&mut self, name: &str, args: &[(u64, u64)]) -> bool { self.items.push((name.to_string(), digits(args))); self.ret() }
    fn derive(&mut self, name: &str, d: Vec<u8>) { self.items.push((name.to_string(), bytes(&d))); }

    /// The value of a field of the head or the part that was read last.
    fn field(&self, name: &str) -> Option<Vec<u8>> {
        let i = self.items.iter().rposition(|x| x.0 == "initial_finished" || x.0 == "multipart_begin").unwrap_or(0);
        let j = (i..self.items.len().saturating_sub(1)).find(|&j| self.items[j].0 == "hname" && self.items[j].1 == bytes(name.as_bytes()))?;
        Some(self.items[j + 1].1.iter().map(|&b| b as u8).collect())
    }
    fn length(&self) -> Option<usize> { String::from_utf8(self.field("content-length")?).ok()?.parse().ok() }
    fn params(&self, name: &str) -> Vec<(Vec<u8>, Option<Vec<u8>>)> {
        let v = self.field(name).unwrap_or_default();
        FieldIterator::new(&v, b';', true).map(|(n, v)| (n.into_bytes(), v.map(|v| v.into_bytes()))).collect()
    }
    /// What the target of a request means.
    fn target(&mut self) {
        let Some(u) = self.items.iter().find(|x| x.0 == "url").map(|x| x.1.iter().map(|&b| b as u8).collect::<Vec<u8>>()) else { return };
        let k = u.iter().position(|&b| b == b'?').unwrap_or(u.len());
        self.derive("path", decode(&u[..k]).map(|s| s.into_bytes()).unwrap_or_else(|e| format!("{:?}", e).into_bytes()));
        if k < u.len() {
            let all: Vec<_> = QueryIterator::new(&u[k + 1..]).collect();
            for (n, v) in all {
                self.derive("query-name", n.into_bytes());
                if let Some(v) = v { self.derive("query-value", v.into_bytes()); }
            }
        }
    }
    fn part(&mut self) {
        if let Some((_, Some(v))) = self.params("content-disposition").into_iter().find(|p| p.0 == b"name" && p.1.is_some()) {
            if self.items.last().map_or(true, |x| x.0 != "part-name") { self.derive("part-name", v); }
        }
    }
}

impl http_box::http1::HttpHandler for App {
    fn content_length(&mut self) -> Option<usize> { self.part(); self.length() }
    fn on_body_finished(&mut self) -> bool { self.event("body_finished", &[]) }
    fn on_chunk_begin(&mut self) -> bool { self.event("chunk_begin", &[]) }
    fn on_chunk_data(&mut self, d: &[u8]) -> bool { self.data("chunk", d) }
    fn on_chunk_extension_finished(&mut self) -> bool { self.event("ext_finished", &[]) }
    fn on_chunk_extension_name(&mut self, d: &[u8]) -> bool { self.data("xname", d) }
    fn on_chunk_extension_value(&mut self, d: &[u8]) -> bool { self.data("xvalue", d) }
    fn on_chunk_extensions_finished(&mut self) -> bool { self.event("exts_finished", &[]) }
    fn on_chunk_length(&mut self, n: usize) -> bool { self.event("chunk_length", &[(n as u64, 16)]) }
    fn on_header_name(&mut self, d: &[u8]) -> bool { self.data("hname", d) }
    fn on_header_value(&mut self, d: &[u8]) -> bool { self.data("hvalue", d) }
    fn on_headers_finished(&mut self) -> bool { self.event("headers_finished", &[]) }
    fn on_initial_finished(&mut self) -> bool { self.event("initial_finished", &[]) }
    fn on_method(&mut self, d: &[u8]) -> bool { self.data("method", d) }
    fn on_multipart_begin(&mut self) -> bool { self.event("multipart_begin", &[]) }
    fn on_multipart_data(&mut self, d: &[u8]) -> bool { self.data("part", d) }
    fn on_status(&mut self, d: &[u8]) -> bool { self.data("status", d) }
    fn on_status_code(&mut self, n: u16) -> bool { self.event("status_code", &[(n as u64, 10)]) }
    fn on_url(&mut self, d: &[u8]) -> bool { self.data("url", d) }
    fn on_url_encoded_begin(&mut self) -> bool { self.event("url_begin", &[]) }
    fn on_url_encoded_name(&mut self, d: &[u8]) -> bool { self.data("uname", d) }
    fn on_url_encoded_value(&mut self, d: &[u8]) -> bool { self.data("uvalue", d) }
    fn on_version(&mut self, a: u16, b: u16) -> bool { self.event("version", &[(a as u64, 10), (b as u64, 10)]) }
}

impl http_box::http2::HttpHandler for App {
    fn on_data(&mut self, d: &[u8], f: bool) -> bool { self.data_fin("data", d, f) }
    fn on_frame_format(&mut self, l: u32, t: u8, f: u8, s: u32) -> bool {
        self.event("frame_format", &[(l as u64, 256), (t as u64, 256), (f as u64, 256), (s as u64, 256)])
    }
    fn on_go_away(&mut self, s: u32, e: u32) -> bool { self.event("go_away", &[(s as u64, 256), (e as u64, 256)]) }
    fn on_go_away_debug_data(&mut self, d: &[u8], f: bool) -> bool { self.data_fin("debug", d, f) }
    fn on_headers(&mut self, e: bool, s: u32, w: u8) -> bool { self.event("headers", &[(e as u64, 256), (s as u64, 256), (w as u64, 256)]) }
    fn on_headers_fragment(&mut self, d: &[u8], f: bool) -> bool { self.data_fin("fragment", d, f) }
    fn on_ping(&mut self, d: &[u8], f: bool) -> bool { self.data_fin("ping", d, f) }
    fn on_priority(&mut self, e: bool, s: u32, w: u8) -> bool { self.event("priority", &[(e as u64, 256), (s as u64, 256), (w as u64, 256)]) }
    fn on_push_promise(&mut self, s: u32) -> bool { self.event("push_promise", &[(s as u64, 256)]) }
    fn on_rst_stream(&mut self, e: u32) -> bool { self.event("rst_stream", &[(e as u64, 256)]) }
    fn on_settings(&mut self, i: u16, v: u32) -> bool { self.event("settings", &[(i as u64, 256), (v as u64, 256)]) }
    fn on_unsupported(&mut self, d: &[u8], f: bool) -> bool { self.data_fin("unsupported", d, f) }
    fn on_window_update(&mut self, n: u32) -> bool { self.event("window_update", &[(n as u64, 256)]) }
}

/// The bytes on the wire, in slices.
struct Line<'a> { input: &'a [u8], cuts: &'a [usize], pos: usize, k: usize, idle: u32, g: &'a Guard }

impl<'a> Line<'a> {
    fn slice(&mut self) -> &'a [u8] {
        while self.k < self.cuts.len() && self.cuts[self.k] <= self.pos { self.k += 1; }
        let end = if self.k < self.cuts.len() { self.cuts[self.k].min(self.input.len()) } else { self.input.len() };
        self.g.place(&self.input[self.pos..end], false)
    }
    fn took(&mut self, n: usize) { self.idle = if n == 0 { self.idle + 1 } else { 0 }; self.pos += n; }
    fn stuck(&self, open: bool) -> bool { self.idle > 200 || open && self.pos == self.input.len() && self.idle > 1 }
}

/// Everything up to the end of a head or a body: Err says what went wrong.
macro_rules! read {
    ($p:expr, $app:expr, $line:expr) => { loop {
        let s = $line.slice();
        $app.stopped = false; $app.after = false;
        let r = $p.resume(&mut $app, s);
        if $app.after { return Err("a callback followed one that returned false".into()); }
        match r {
            Ok(http_box::fsm::Success::Finished(n)) => {
                if n > s.len() { return Err(format!("Finished({}) on a slice of {}", n, s.len())); }
                $line.took(n);
                if $app.stopped { return Err("Finished although the last callback returned false".into()); }
                break;
            },
            Ok(http_box::fsm::Success::Eos(n)) => {
                if n != s.len() { return Err(format!("Eos({}) on a slice of {}", n, s.len())); }
                $line.took(n);
                if $line.stuck(true) { return Err("the input ended, but not the message".into()); }
            },
            Ok(http_box::fsm::Success::Callback(n)) => {
                if n > s.len() { return Err(format!("Callback({}) on a slice of {}", n, s.len())); }
                $line.took(n);
                if !$app.stopped { return Err("Callback although no callback returned false".into()); }
                if $line.stuck(false) { return Err("no progress".into()); }
            },
            Err(e) => return Err(format!("{:?} at byte {}", e, $line.pos)),
        }
    } } }

pub struct How<'a> { pub cuts: &'a [usize], pub sched: Sched, pub fresh: bool }

fn compare(at: usize, app: &App, m: &Message) -> Result<(), String> {
    if app.items == m.items { return Ok(()); }
    let i = (0..).find(|&i| app.items.get(i) != m.items.get(i)).unwrap();
    let show = |x: Option<&Item>| x.map_or("nothing".to_string(), |x| format!("{}:{}", x.0,
        if x.1.iter().all(|&b| (32..127).contains(&b)) && !x.1.is_empty() { format!("{:?}", x.1.iter().map(|&b| b as u8 as char).collect::<String>()) } else { format!("{:?}", x.1) }));
    Err(format!("message {}, item {}: {} instead of {}", at, i + 1, show(app.items.get(i)), show(m.items.get(i))))
}

pub fn http1(ms: &[&Message], how: &How, g: &Guard) -> Result<(), String> {
    use http_box::http1::Parser;
    let input: Vec<u8> = ms.iter().flat_map(|m| m.wire.iter().cloned()).collect();
    let mut line = Line { input: &input, cuts: how.cuts, pos: 0, k: 0, idle: 0, g };
    let mut app = App::new();
    app.sched = how.sched.clone();
    let spare = std::cell::RefCell::new(Vec::<Box<[u8]>>::new());      // outlives the parsers
    let mut p: Parser<'static, App> = Parser::new();
    let mut end = 0;
    for (i, m) in ms.iter().enumerate() {
        end += m.wire.len();
        app.items.clear();
        if how.fresh { p = Parser::new(); }
        // a parser that is new need not be told, but only one that is told skips line breaks
        if i > 0 && !how.fresh || matches!(m.wire[0], 13 | 10 | 32 | 9) || i % 2 == 1 { p.init_head(); }
        read!(p, app, line);
        app.target();
        let params = app.params("content-type");
        let kind = params.first().map_or(vec![], |p| p.0.clone());
        let len = app.length();
        if app.field("transfer-encoding").map_or(false, |v| v == b"chunked") {
            if how.fresh { p = Parser::new(); }
            p.init_chunked();
            read!(p, app, line);
        } else if kind == b"multipart/form-data" {
            let b = params.iter().find(|x| x.0 == b"boundary").and_then(|x| x.1.clone()).unwrap_or_default().into_boxed_slice();
            // the box does not move, and is dropped after the last use of the parser
            let s: &'static [u8] = unsafe { std::slice::from_raw_parts(b.as_ptr(), b.len()) };
            spare.borrow_mut().push(b);
            if how.fresh { p = Parser::new(); }
            p.init_multipart();
            p.set_boundary(s);
            read!(p, app, line);
        } else if kind == b"application/x-www-form-urlencoded" {
            if how.fresh { p = Parser::new(); }
            p.init_url_encoded();
            p.set_length(len.unwrap_or(0));
            read!(p, app, line);
        } else {
            // nobody parses this: it is what comes next on the line
            let mut left = len.unwrap_or(0);
            while left > 0 {
                let s = line.slice();
                if s.is_empty() { return Err("the input ended, but not the body".into()); }
                let n = s.len().min(left);
                app.learn("raw", &s[..n]);
                line.took(n);
                left -= n;
            }
        }
        compare(i + 1, &app, m)?;
        if line.pos != end { return Err(format!("message {} ends at byte {}, not {}", i + 1, end, line.pos)); }
    }
    Ok(())
}

pub fn http2(ms: &[&Message], how: &How, g: &Guard) -> Result<(), String> {
    use http_box::http2::Parser;
    let input: Vec<u8> = ms.iter().flat_map(|m| m.wire.iter().cloned()).collect();
    let mut line = Line { input: &input, cuts: how.cuts, pos: 0, k: 0, idle: 0, g };
    let mut app = App::new();
    app.sched = how.sched.clone();
    let mut p: Parser<'static, App> = Parser::new();
    // there is no end of a frame but the beginning of the next one: all of them at once
    loop {
        let s = line.slice();
        app.stopped = false; app.after = false;
        let r = p.resume(&mut app, s);
        if app.after { return Err("a callback followed one that returned false".into()); }
        match r {
            Ok(http_box::fsm::Success::Eos(n)) => {
                if n != s.len() { return Err(format!("Eos({}) on a slice of {}", n, s.len())); }
                line.took(n);
                if line.pos == input.len() { break; }
                if line.stuck(false) { return Err("no progress".into()); }
            },
            Ok(http_box::fsm::Success::Callback(n)) => {
                if n > s.len() { return Err(format!("Callback({}) on a slice of {}", n, s.len())); }
                line.took(n);
                if !app.stopped { return Err("Callback although no callback returned false".into()); }
                if line.stuck(false) { return Err("no progress".into()); }
            },
            Ok(http_box::fsm::Success::Finished(_)) => return Err("Finished".into()),
            Err(e) => return Err(format!("{:?} at byte {}", e, line.pos)),
        }
    }
    let all = Message { wire: vec![], stretch: vec![], items: ms.iter().flat_map(|m| m.items.iter().cloned()).collect() };
    compare(0, &app, &all)
}

/// Messages, slices and interruptions number k.
pub fn draw<'m>(all: &'m [Message], nums: &[u64], seed: u64, k: u64) -> (Vec<Cow<'m, Message>>, Vec<usize>, Sched, bool) {
    let mut r = Rng::new(seed ^ 0xC055, k);
    let n = if r.chance(3) { 10 + r.usize(40) } else if r.below(8000) == 0 { 200 + r.usize(2000) } else { 1 + r.usize(5) };
    let mut ms: Vec<Cow<Message>> = (0..n).map(|_| Cow::Borrowed(r.pick(all))).collect();
    if r.below(80) == 0 {
        let i = r.usize(n);
        if !ms[i].stretch.is_empty() {
            let len = match r.below(4) {
                0 => r.usize(100_000), 1 => (1 << (8 + r.below(13))) as usize + r.usize(3) - 1, 2 => 100 + r.usize(2000),
                _ => { let near: Vec<u64> = nums.iter().cloned().filter(|&x| x > 50 && x < 1 << 21).collect();
                       if near.is_empty() { 65536 } else { *r.pick(&near) as usize + r.usize(3) - 1 } },
            };
            let m = stretched(&ms[i], r.usize(ms[i].stretch.len()), len);
            ms[i] = Cow::Owned(m);
        }
    }
    let len: usize = ms.iter().map(|m| m.wire.len()).sum();
    let mut cuts = match r.below(6) {
        0 => vec![],
        1 => (1..len).collect(),
        2 => { let w = 1 + r.usize(40); (1..len).filter(|i| i % w == 0).collect() },
        _ => (0..1 + r.usize(12)).map(|_| r.usize(len.max(1))).collect(),
    };
    // around the ends of the messages
    if r.chance(40) { let mut e = 0; for m in &ms { e += m.wire.len(); let i = (e + r.usize(7)).saturating_sub(3); if i > 0 && i < len { cuts.push(i); } } }
    let sched = match r.below(6) { 0 => Sched::Always, 1 => Sched::Every(2), 2 => Sched::Every(3 + r.below(9) as u32),
        3 => { let mut v: Vec<u32> = (0..1 + r.usize(8)).map(|_| 1 + r.below(120) as u32).collect(); v.sort(); Sched::Nth(v) }, _ => Sched::Never };
    // slices are copied to where they are wanted, again after every interruption
    let most = if len > 200_000 || len > 20_000 && !matches!(sched, Sched::Never) { if n > 100 { 3_000 } else if matches!(sched, Sched::Never) { 150_000 } else { 20_000 } } else { usize::MAX };
    let mut i = most;
    while i < len { cuts.push(i); i += most; }
    cuts.sort();
    cuts.dedup();
    (ms, cuts, sched, r.chance(20))
}

pub fn check(proto: u8, ms: &[&Message], cuts: &[usize], sched: &Sched, fresh: bool, g: &Guard) -> Option<String> {
    let how = How { cuts, sched: sched.clone(), fresh };
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| if proto == 1 { http1(ms, &how, g) } else { http2(ms, &how, g) })) {
        Ok(Ok(())) => None, Ok(Err(e)) => Some(e), Err(_) => Some("panic".into()),
    }
}
