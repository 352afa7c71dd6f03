//! What values look like when they are printed, and the order of State, against spec/Text.tla.
use http_box::{fsm::Success, http1, http2, util};
use std::fmt::{Debug, Display};

/// What is printed with {:?} and with {}.
fn both<T: Debug + Display>(t: T) -> (String, String) { (format!("{:?}", t), format!("{}", t)) }

/// A value by its type, its variant and the number it carries; None: not known here.
fn make(ty: &str, variant: &str, n: u64) -> Option<(String, String)> {
    use http1::ParserError as P;
    use http2::{ErrorCode as E, FrameType as F, Setting as S};
    let b = n as u8;
    let w = n as u32;
    Some(match (ty, variant) {
        ("http1::ParserError", "ChunkExtensionName") => both(P::ChunkExtensionName(b)),
        ("http1::ParserError", "ChunkExtensionValue") => both(P::ChunkExtensionValue(b)),
        ("http1::ParserError", "ChunkLength") => both(P::ChunkLength(b)),
        ("http1::ParserError", "CrlfSequence") => both(P::CrlfSequence(b)),
        ("http1::ParserError", "HeaderName") => both(P::HeaderName(b)),
        ("http1::ParserError", "HeaderValue") => both(P::HeaderValue(b)),
        ("http1::ParserError", "Method") => both(P::Method(b)),
        ("http1::ParserError", "Multipart") => both(P::Multipart(b)),
        ("http1::ParserError", "MultipartBoundary") => both(P::MultipartBoundary(b)),
        ("http1::ParserError", "Status") => both(P::Status(b)),
        ("http1::ParserError", "StatusCode") => both(P::StatusCode(b)),
        ("http1::ParserError", "Url") => both(P::Url(b)),
        ("http1::ParserError", "UrlEncodedName") => both(P::UrlEncodedName(b)),
        ("http1::ParserError", "UrlEncodedValue") => both(P::UrlEncodedValue(b)),
        ("http1::ParserError", "Version") => both(P::Version(b)),
        ("http1::ParserError", "Dead") => both(P::Dead),
        ("http1::ParserError", "ChunkLengthOverflow") => both(P::ChunkLengthOverflow),
        ("http2::ParserError", v) => {
            // not exported by name: a data frame of one byte whose padding is longer
            struct H;
            impl http2::HttpHandler for H {}
            let mut p = http2::Parser::new();
            let first = p.resume(&mut H, b"\0\0\x01\0\x08\0\0\0\x01\x02");
            let again = p.resume(&mut H, b"\0");
            match (v, first, again) {
                ("PayloadLength", Err(e), _) => both(e),
                ("Dead", Err(_), Err(e)) => both(e),
                _ => return None,
            }
        },
        ("DecodeError", "Byte") => both(util::DecodeError::Byte(b)),
        ("DecodeError", "HexSequence") => both(util::DecodeError::HexSequence(b)),
        ("QueryError", "Name") => both(util::QueryError::Name(b)),
        ("QueryError", "Value") => both(util::QueryError::Value(b)),
        ("FieldError", "Name") => both(util::FieldError::Name(b)),
        ("FieldError", "Value") => both(util::FieldError::Value(b)),
        ("ErrorCode", v) => both(match v {
            "NoError" => E::NoError, "Protocol" => E::Protocol, "Internal" => E::Internal, "FlowControl" => E::FlowControl,
            "SettingsTimeout" => E::SettingsTimeout, "StreamClosed" => E::StreamClosed, "FrameSize" => E::FrameSize,
            "RefusedStream" => E::RefusedStream, "Cancel" => E::Cancel, "Compression" => E::Compression, "Connect" => E::Connect,
            "EnhanceYourCalm" => E::EnhanceYourCalm, "InadequateSecurity" => E::InadequateSecurity,
            "Http11Required" => E::Http11Required, "Unsupported" => E::Unsupported, _ => return None }),
        ("FrameType", v) => both(match v {
            "Data" => F::Data, "Headers" => F::Headers, "Priority" => F::Priority, "RstStream" => F::RstStream, "Settings" => F::Settings,
            "PushPromise" => F::PushPromise, "Ping" => F::Ping, "GoAway" => F::GoAway, "WindowUpdate" => F::WindowUpdate,
            "Continuation" => F::Continuation, "Unsupported" => F::Unsupported, _ => return None }),
        ("Setting", v) => both(match v {
            "HeaderTableSize" => S::HeaderTableSize(w), "EnablePush" => S::EnablePush(w), "MaxConcurrentStreams" => S::MaxConcurrentStreams(w),
            "InitialWindowSize" => S::InitialWindowSize(w), "MaxFrameSize" => S::MaxFrameSize(w), "MaxHeaderListSize" => S::MaxHeaderListSize(w),
            "Unsupported" => S::Unsupported(w), _ => return None }),
        ("Success", v) => {
            let s = match v { "Callback" => Success::Callback(n as usize), "Eos" => Success::Eos(n as usize), "Finished" => Success::Finished(n as usize), _ => return None };
            // Display is the number alone
            if format!("{}", s) != n.to_string() { return Some((format!("{:?}", s), format!("{}", s))); }
            (format!("{:?}", s), format!("{:?}", s))
        },
        _ => return None,
    })
}

/// Whether `text` has `word`, and not as a part of a longer word.
fn has(text: &str, word: &str) -> bool {
    text.match_indices(word).any(|(i, _)| {
        let word_byte = |b: u8| b.is_ascii_alphanumeric() || b == b'_';
        !text[..i].bytes().next_back().is_some_and(word_byte) && !text[i + word.len()..].bytes().next().is_some_and(word_byte)
    })
}

fn numbers(text: &str) -> Vec<u64> {
    text.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).map(|x| x.parse().unwrap_or(u64::MAX)).collect()
}

pub fn value(ty: &str, variant: &str, number: &str, printed: &str, need: &mut dyn FnMut(&'static str, bool, String)) {
    let mut ns: Vec<u64> = match number {
        "none" => vec![0],
        "byte" => (0..256).collect(),
        _ => (0..if number == "word" { 32 } else { 64 }).flat_map(|k| [(1u64 << k) - 1, 1 << k, (1 << k) + 1]).chain([10, 99, 100, 65535, 65536, u32::MAX as u64]).collect(),
    };
    if number == "count" { ns.push(u64::MAX); }
    for n in ns {
        let Some((debug, display)) = make(ty, variant, n) else { need("C23", false, format!("no value for {}::{}", ty, variant)); continue };
        let is = format!("{}::{} with {} is printed {:?} and {:?}", ty, variant, n, debug, display);
        need("C23", debug == display, is.clone());
        need("C23", has(&debug, printed), is.clone());
        let want = if number == "none" { vec![] } else { vec![n] };
        need("C23", numbers(&debug.replacen(printed, "", 1)) == want, is);
    }
}

/// Flags and frame formats.
pub fn flags(b: u8, set: &[&str], need: &mut dyn FnMut(&'static str, bool, String)) {
    let (debug, display) = both(http2::Flags::from_u8(b));
    need("C23", debug == display && has(&debug, "Flags"), format!("Flags {} are printed {:?} and {:?}", b, debug, display));
    for name in ["ack", "end_headers", "end_stream", "padded", "priority"] {
        let x = set.contains(&name);
        need("C23", has(&debug, &format!("{}: {}", name, x)) && !has(&debug, &format!("{}: {}", name, !x)), format!("Flags {} are printed {:?}", b, debug));
    }
}

pub fn frame(ff: &http2::FrameFormat, len: u32, sid: u32, need: &mut dyn FnMut(&'static str, bool, String)) {
    let (debug, display) = both(*ff);
    let parts = [format!("FrameFormat"), format!("{}", ff.flags()), format!("{}", ff.frame_type()), format!("payload_length: {}", len), format!("stream_id: {}", sid)];
    let ok = debug == display && parts.iter().all(|p| debug.contains(&p[..])) && has(&debug, &parts[3]) && has(&debug, &parts[4]);
    need("C23", ok, format!("a frame format of length {} and stream {} is printed {:?} and {:?}", len, sid, debug, display));
}

/// State as a number.
fn rank(part: &str) -> Option<u8> {
    use http1::State as S;
    Some(match part {
        "None" => S::None, "RequestMethod" => S::RequestMethod, "RequestUrl" => S::RequestUrl, "RequestVersion" => S::RequestVersion,
        "ResponseVersion" => S::ResponseVersion, "ResponseStatusCode" => S::ResponseStatusCode, "ResponseStatus" => S::ResponseStatus,
        "HeaderName" => S::HeaderName, "HeaderValue" => S::HeaderValue, "ChunkLength" => S::ChunkLength,
        "ChunkExtensionName" => S::ChunkExtensionName, "ChunkExtensionValue" => S::ChunkExtensionValue, "ChunkData" => S::ChunkData,
        "MultipartData" => S::MultipartData, "UrlEncodedName" => S::UrlEncodedName, "UrlEncodedValue" => S::UrlEncodedValue,
        _ => return None } as u8)
}

pub fn before(p: &str, q: &str, need: &mut dyn FnMut(&'static str, bool, String)) {
    let (a, b) = (rank(p), rank(q));
    need("C24", a.is_some() && a < b, format!("State::{} is {:?} and State::{}, which is reported after it, is {:?}", p, a, q, b));
}
