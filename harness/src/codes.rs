//! The code tables and byte classes of the library against spec/Codes.tla.
use http_box::http2::{ErrorCode, Flags, FrameFormat, FrameType, Setting};
use crate::{rng::Rng, text};

pub struct Finding { pub tag: &'static str, pub text: String }

pub fn run(table: &str, seed: u64) -> (u64, Vec<Finding>) {
    let mut out = vec![];
    let mut n_checks = 0u64;
    let mut r = Rng::new(seed, 77);
    let mut need = |tag: &'static str, ok: bool, text: String| { n_checks += 1; if !ok { out.push(Finding { tag, text }); } };
    for line in table.lines() {
        let f: Vec<&str> = line.split_whitespace().collect();
        if f[0] == "T" { text::value(f[1], f[2], f[3], f[4], &mut need); }
        if f[0] == "B" { text::before(f[1], f[2], &mut need); }
        if f[0] != "N" { continue; }
        let n: u32 = f[1].parse().unwrap();
        // settings
        for v in [0u32, 1, 0x7FFF_FFFF, 0x8000_0000, u32::MAX, r.next() as u32] {
            let s = Setting::Unsupported(7).new(n as u16, v);
            let is = [("header_table_size", s.is_header_table_size()), ("enable_push", s.is_enable_push()),
                      ("max_concurrent_streams", s.is_max_concurrent_streams()), ("initial_window_size", s.is_initial_window_size()),
                      ("max_frame_size", s.is_max_frame_size()), ("max_header_list_size", s.is_max_header_list_size()),
                      ("unsupported", s.is_unsupported())];
            for (name, b) in is { need("C19", b == (name == f[2]), format!("Setting {} with value {}: is_{}() is {}", n, v, name, b)); }
            let var = match s { Setting::EnablePush(_) => "enable_push", Setting::HeaderTableSize(_) => "header_table_size",
                Setting::InitialWindowSize(_) => "initial_window_size", Setting::MaxConcurrentStreams(_) => "max_concurrent_streams",
                Setting::MaxFrameSize(_) => "max_frame_size", Setting::MaxHeaderListSize(_) => "max_header_list_size", Setting::Unsupported(_) => "unsupported" };
            need("C19", var == f[2], format!("Setting {} is {}", n, var));
            need("C19", s.value() == v, format!("Setting {}: value {} instead of {}", n, s.value(), v));
        }
        if n > 255 { continue; }
        let b = n as u8;
        let (frame, fbyte, error, ebyte) = (f[3], f[4].parse::<u8>().unwrap(), f[5], f[6].parse::<u8>().unwrap());
        let flags: Vec<&str> = f[7].split(',').collect();
        let classes: Vec<&str> = f[8].split(',').collect();
        let t = FrameType::from_u8(b);
        frame_type(&t, frame, fbyte, b, &mut need);
        let e = ErrorCode::from_u8(b);
        need("C19", e.as_byte() == ebyte, format!("ErrorCode {}: as_byte() is {}", b, e.as_byte()));
        let is = [("no_error", e.is_no_error()), ("protocol", e.is_protocol()), ("internal", e.is_internal()), ("flow_control", e.is_flow_control()),
                  ("settings_timeout", e.is_settings_timeout()), ("stream_closed", e.is_stream_closed()), ("frame_size", e.is_frame_size()),
                  ("refused_stream", e.is_refused_stream()), ("cancel", e.is_cancel()), ("compression", e.is_compression()), ("connect", e.is_connect()),
                  ("enhance_your_calm", e.is_enhance_your_calm()), ("inadequate_security", e.is_inadequate_security()),
                  ("http_1_1_required", e.is_http_1_1_required())];
        for (name, x) in is { need("C19", x == (name == error), format!("ErrorCode {}: is_{}() is {}", b, name, x)); }
        let var = match e { ErrorCode::Cancel => "cancel", ErrorCode::Compression => "compression", ErrorCode::Connect => "connect",
            ErrorCode::EnhanceYourCalm => "enhance_your_calm", ErrorCode::FlowControl => "flow_control", ErrorCode::FrameSize => "frame_size",
            ErrorCode::Http11Required => "http_1_1_required", ErrorCode::InadequateSecurity => "inadequate_security", ErrorCode::NoError => "no_error",
            ErrorCode::Internal => "internal", ErrorCode::Protocol => "protocol", ErrorCode::RefusedStream => "refused_stream",
            ErrorCode::SettingsTimeout => "settings_timeout", ErrorCode::StreamClosed => "stream_closed", ErrorCode::Unsupported => "unsupported" };
        need("C19", var == error, format!("ErrorCode {} is {}", b, var));
        need("C19", ErrorCode::from_u8(e.as_byte()) == e, format!("ErrorCode {} does not survive a round trip", b));
        let l = Flags::from_u8(b);
        need("C19", l.as_byte() == b, format!("Flags {}: as_byte() is {}", b, l.as_byte()));
        for (name, x) in [("ack", l.is_ack()), ("end_stream", l.is_end_stream()), ("end_headers", l.is_end_headers()),
                          ("padded", l.is_padded()), ("priority", l.is_priority()), ("empty", l.is_empty())] {
            need("C19", x == flags.contains(&name), format!("Flags {}: is_{}() is {}", b, name, x));
        }
        text::flags(b, &flags, &mut need);
        // a frame format made of this byte and others.  It has no constructor without an instance;
        // it consists of integers only, so that an all-zero instance is valid
        let mut zero: FrameFormat = unsafe { std::mem::zeroed() };
        for _ in 0..8 {
            let len = match r.below(4) { 0 => 0, 1 => 0xFF_FFFF, 2 => r.below(0x1000) as u32, _ => r.below(0x100_0000) as u32 };
            let sid = match r.below(3) { 0 => 0x7FFF_FFFF, 1 => r.below(300) as u32, _ => r.below(0x8000_0000) as u32 };
            let fl = r.below(256) as u8;
            let ff = zero.new(len, b, fl, sid);
            frame_type(&ff.frame_type(), frame, fbyte, b, &mut need);
            need("C19", ff.payload_length() == len, format!("FrameFormat({}, {}, {}, {}): payload_length() is {}", len, b, fl, sid, ff.payload_length()));
            need("C19", ff.stream_id() == sid, format!("FrameFormat({}, {}, {}, {}): stream_id() is {}", len, b, fl, sid, ff.stream_id()));
            need("C19", ff.flags().as_byte() == fl, format!("FrameFormat({}, {}, {}, {}): flags() is {}", len, b, fl, sid, ff.flags().as_byte()));
            text::frame(&ff, len, sid, &mut need);
            let ff = zero.new(len, fl, b, sid);
            need("C19", ff.flags() == l && ff.frame_type() == FrameType::from_u8(fl), format!("FrameFormat({}, {}, {}, {}): flags() or frame_type() differ", len, fl, b, sid));
        }
        for (name, x) in [("header_field", std::panic::catch_unwind(|| http_box::byte::is_header_field(b))),
                          ("quoted_header_field", std::panic::catch_unwind(|| http_box::byte::is_quoted_header_field(b))),
                          ("token", std::panic::catch_unwind(|| http_box::byte::is_token(b)))] {
            match x { Ok(x) => need("C20", x == classes.contains(&name), format!("is_{}({}) is {}", name, b, x)),
                      Err(_) => need("C20", false, format!("is_{}({}) panics", name, b)) }
        }
    }
    (n_checks, out)
}

fn frame_type(t: &FrameType, frame: &str, fbyte: u8, b: u8, need: &mut dyn FnMut(&'static str, bool, String)) {
    need("C19", t.as_byte() == fbyte, format!("FrameType {}: as_byte() is {}", b, t.as_byte()));
    let is = [("data", t.is_data()), ("headers", t.is_headers()), ("priority", t.is_priority()), ("rst_stream", t.is_rst_stream()),
              ("settings", t.is_settings()), ("push_promise", t.is_push_promise()), ("ping", t.is_push_ping()), ("go_away", t.is_go_away()),
              ("window_update", t.is_window_update()), ("continuation", t.is_continuation()), ("unsupported", t.is_unsupported())];
    for (name, x) in is { need("C19", x == (name == frame), format!("FrameType {}: is_{}() is {}", b, name, x)); }
    let var = match *t { FrameType::Continuation => "continuation", FrameType::Data => "data", FrameType::GoAway => "go_away", FrameType::Headers => "headers",
        FrameType::Ping => "ping", FrameType::Priority => "priority", FrameType::PushPromise => "push_promise", FrameType::RstStream => "rst_stream",
        FrameType::Settings => "settings", FrameType::WindowUpdate => "window_update", FrameType::Unsupported => "unsupported" };
    need("C19", var == frame, format!("FrameType {} is {}", b, var));
    need("C19", FrameType::from_u8(t.as_byte()) == *t, format!("FrameType {} does not survive a round trip", b));
}
