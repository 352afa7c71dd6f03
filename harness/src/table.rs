//! The transition tables that TLC printed, in the compact form written by /verif/lib/tables.py.
use std::collections::HashMap;

pub const T_ARG: u8 = 255;

/// Token names.  The order is fixed here; tables refer to them by name.
pub const NAMES: [&str; 62] = [
    "method", "url", "status", "hname", "hvalue", "xname", "xvalue", "chunk", "part", "uname",
    "uvalue", "version", "status_code", "initial_finished", "headers_finished", "body_finished",
    "chunk_begin", "chunk_length", "ext_finished", "exts_finished", "multipart_begin", "url_begin",
    // http2
    "data", "fragment", "ping", "debug", "unsupported", "frame_format", "headers", "priority",
    "rst_stream", "settings", "push_promise", "go_away", "window_update", "data_end",
    "fragment_end", "ping_end", "debug_end", "unsupported_end",
    // util
    "out", "name", "value", "item", "item_v",
    // registers
    "#maj", "#min", "#code", "#len", "#type", "#flags", "#sid", "#excl", "#dep", "#weight", "#id",
    "#val", "?", "?", "?", "?", "?",
];

macro_rules! names { ($($id:ident = $v:expr),*) => { $(pub const $id: u8 = $v;)* } }
names!(METHOD = 0, URL = 1, STATUS = 2, HNAME = 3, HVALUE = 4, XNAME = 5, XVALUE = 6, CHUNK = 7,
       PART = 8, UNAME = 9, UVALUE = 10, VERSION = 11, STATUS_CODE = 12, INITIAL_FINISHED = 13,
       HEADERS_FINISHED = 14, BODY_FINISHED = 15, CHUNK_BEGIN = 16, CHUNK_LENGTH = 17,
       EXT_FINISHED = 18, EXTS_FINISHED = 19, MULTIPART_BEGIN = 20, URL_BEGIN = 21,
       DATA = 22, FRAGMENT = 23, PING = 24, DEBUG = 25, UNSUPPORTED = 26, FRAME_FORMAT = 27,
       HEADERS = 28, PRIORITY = 29, RST_STREAM = 30, SETTINGS = 31, PUSH_PROMISE = 32,
       GO_AWAY = 33, WINDOW_UPDATE = 34, DATA_END = 35, FRAGMENT_END = 36, PING_END = 37,
       DEBUG_END = 38, UNSUPPORTED_END = 39, OUT = 40, NAME = 41, VALUE = 42, ITEM = 43,
       ITEM_V = 44, R_LEN = 48);

pub fn name_id(s: &str) -> u8 {
    NAMES.iter().position(|n| *n == s).unwrap_or_else(|| panic!("token {}", s)) as u8
}

/// The parts of a message, by the names of the states of the library.  Longer prefixes first.
pub const PHASES: [(&str, &str); 67] = [
    ("", ""),
    // http1
    ("StripDetect", "start"), ("Detect", "start"), ("RequestMethod", "method"), ("RequestUrl", "url"),
    ("RequestHttp", "request-version"), ("RequestVersion", "request-version"), ("ResponseVersion", "response-version"),
    ("ResponseStatusCode", "status-code"), ("ResponseStatus", "status"), ("Initial", "initial-end"),
    ("HeaderCr", "header-end"), ("HeaderLf", "header-end"), ("HeaderEnd", "header-end"),
    ("CheckHeaderName", "header-name"), ("FirstHeaderName", "header-name"), ("UpperHeaderName", "header-name"),
    ("LowerHeaderName", "header-name"), ("StripHeaderValue", "header-value"), ("HeaderValue", "header-value"),
    ("HeaderQuotedValue", "header-value"), ("HeaderEscapedValue", "header-value"),
    ("ChunkLength", "chunk-length"), ("StripChunkExtensionName", "extension-name"),
    ("UpperChunkExtensionName", "extension-name"), ("LowerChunkExtensionName", "extension-name"),
    ("StripChunkExtensionValue", "extension-value"), ("ChunkExtensionValue", "extension-value"),
    ("ChunkExtensionQuotedValue", "extension-value"), ("ChunkExtensionEscapedValue", "extension-value"),
    ("ChunkData", "chunk-data"), ("MultipartData", "part-data"), ("MultipartDetectData", "part-data"),
    ("Multipart", "boundary"), ("FirstUrlEncodedName", "url-name"), ("UrlEncodedName", "url-name"),
    ("UrlEncodedValue", "url-value"),
    // http2
    ("FrameLength", "frame-length"), ("FrameType", "frame-type"), ("FrameFlags", "frame-flags"),
    ("FrameStreamId", "frame-stream"), ("FramePadding", "padding"),
    ("DataPadLength", "pad-length"), ("HeadersPadLength", "pad-length"), ("PushPromisePadLength", "pad-length"),
    ("UnsupportedPadLength", "pad-length"), ("GoAwayStreamId", "stream-id"), ("HeadersStreamId", "stream-id"),
    ("PriorityStreamId", "stream-id"), ("PushPromiseStreamId", "stream-id"), ("HeadersWeight", "weight"),
    ("PriorityWeight", "weight"), ("GoAwayErrorCode", "error-code"), ("RstStreamErrorCode", "error-code"),
    ("SettingsId", "setting-id"), ("SettingsValue", "setting-value"), ("WindowUpdateIncrement", "increment"),
    // never for the next byte
    ("FrameFormatEnd", "end"), ("GoAwayCallback", "end"), ("HeadersCallback", "end"), ("PushPromiseCallback", "end"),
    ("RstStreamCallback", "end"), ("SettingsCallback", "end"), ("WindowUpdateCallback", "end"), ("Finished", "end"),
    ("BodyFinished", "end"), ("Dead", "end"),
];
const PAYLOADS: [(&str, &str); 5] = [("DataData", "data"), ("HeadersFragment", "fragment"), ("PingData", "ping"),
                                     ("GoAwayDebugData", "debug"), ("UnsupportedData", "unsupported")];

/// The number of the first entry with this part of a message.
pub fn phase_id(phase: &str) -> u8 {
    PHASES.iter().position(|p| p.1 == phase).or(PAYLOADS.iter().position(|p| p.1 == phase).map(|i| i + 100)).unwrap_or(0) as u8
}
pub fn phase_name(id: u8) -> &'static str { if id >= 100 { PAYLOADS[id as usize - 100].1 } else { PHASES[id as usize].1 } }

/// The part of a message that a state of the library belongs to; 0 for names that are not known.
pub fn phase_of(state: &str) -> u8 {
    if let Some(i) = PAYLOADS.iter().position(|p| p.0 == state) { return phase_id(PAYLOADS[i].1); }
    match PHASES.iter().skip(1).find(|p| state.starts_with(p.0)) { Some(p) => phase_id(p.1), None => 0 }
}

/// Value codes of exported tokens.
pub const V_SAME: i32 = -1;

#[derive(Clone, Debug)]
pub struct Outcome {
    pub guard: u8, // 0 any, 1 lt, 2 eq, 3 gt, 4 max
    pub er: u8,    // 0 none, else index into kinds + 1
    pub next: u32,
    pub toks: Vec<(u8, i32)>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Kind { Normal, Ask(Vec<u32>), Empty, End }

#[derive(Clone, Debug)]
pub struct State {
    pub c: String,
    pub ty: String,
    pub phase: u8,                 // index into PHASES, 0: none
    pub group: u8,
    pub held: u32,                 // bytes read and not reported yet
    pub kind: Kind,
    pub len: u64,
    pub cnt: bool,
    pub shrink: u32,               // same state with length MaxLen
    pub row: Vec<u16>,             // byte -> run
    pub runs: Vec<(u8, u8, Vec<Outcome>)>,
    pub z: Vec<(u8, i32)>,         // zero-width / end of input tokens
    pub zn: u32,
    pub ze: u8,
    pub bd: usize,
    // http2 control locations that the concrete counters care about
    pub is_start: bool,
    pub is_pad: bool,
    pub is_padding: bool,
}

pub struct Table {
    pub proto: u8, // 1, 2, 3
    pub maxlen: u64,
    pub groups: Vec<String>,
    pub kinds: Vec<String>,
    pub class: [u8; 64],           // b'd', b'r', b'e' by token id
    pub inplace: [bool; 64],       // data that is handed out from where it lies
    pub args: HashMap<u8, Vec<u8>>,
    pub base: [u64; 64],
    pub boundaries: Vec<&'static [u8]>,
    pub states: Vec<State>,
    pub keys: HashMap<String, u32>,
    pub init: HashMap<String, u32>,
    pub init_list: Vec<(String, u32)>,
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn toks(it: &mut std::str::SplitWhitespace) -> Vec<(u8, i32)> {
    let n: usize = it.next().unwrap().parse().unwrap();
    (0..n).map(|_| {
        let id = name_id(it.next().unwrap());
        (id, it.next().unwrap().parse().unwrap())
    }).collect()
}

impl Table {
    pub fn load(path: &str) -> Table {
        let text = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{}: {}", path, e));
        let mut t = Table { proto: 0, maxlen: 0, groups: vec![], kinds: vec![], class: [0; 64], inplace: [false; 64],
                            args: HashMap::new(), base: [10; 64], boundaries: vec![],
                            states: vec![], keys: HashMap::new(), init: HashMap::new(),
                            init_list: vec![] };
        for line in text.lines() {
            let mut it = line.split_whitespace();
            match it.next() {
                Some("PROTO") => t.proto = it.next().unwrap().parse().unwrap(),
                Some("MAXLEN") => t.maxlen = it.next().unwrap().parse().unwrap(),
                Some("GROUPS") => t.groups = it.map(|s| s.to_string()).collect(),
                Some("KINDS") => t.kinds = it.map(|s| s.to_string()).collect(),
                Some("CLASS") => { let c = it.next().unwrap().as_bytes()[0];
                                   for n in it { t.class[name_id(n) as usize] = c; } },
                Some("BASE") => { let n = name_id(it.next().unwrap());
                                  t.base[n as usize] = it.next().unwrap().parse().unwrap(); },
                Some("ARGS") => { let n = name_id(it.next().unwrap());
                                  t.args.insert(n, it.map(name_id).collect()); },
                Some("BOUNDARY") => t.boundaries.push(Box::leak(unhex(it.next().unwrap()).into_boxed_slice())),
                Some("INIT") => { let n = it.next().unwrap().to_string();
                                  let s: u32 = it.next().unwrap().parse().unwrap();
                                  t.init_list.push((n.clone(), s)); t.init.insert(n, s); },
                Some("S") => {
                    let id: usize = it.next().unwrap().parse().unwrap();
                    assert_eq!(id, t.states.len());
                    let group = it.next().unwrap().parse().unwrap();
                    let kind = match it.next().unwrap() { "N" => Kind::Normal, "A" => Kind::Ask(vec![]),
                                                          "Z" => Kind::Empty, _ => Kind::End };
                    let len = it.next().unwrap().parse().unwrap();
                    let cnt = it.next().unwrap() == "1";
                    let shrink = it.next().unwrap().parse().unwrap();
                    let bd = it.next().unwrap().parse().unwrap();
                    let c = it.next().unwrap().to_string();
                    let ty = it.next().unwrap().to_string();
                    t.states.push(State { group, held: 0, phase: 0, kind, len, cnt, shrink, row: vec![], runs: vec![],
                                          z: vec![], zn: 0, ze: 0, bd,
                                          is_start: c == "Len1", is_pad: c == "Pad",
                                          is_padding: c == "Padding", c, ty });
                },
                Some("W") => t.states.last_mut().unwrap().phase = phase_id(it.next().unwrap()),
                Some("H") => t.states.last_mut().unwrap().held = it.next().unwrap().parse().unwrap(),
                Some("INPLACE") => for n in it { t.inplace[name_id(n) as usize] = true; },
                Some("A") => t.states.last_mut().unwrap().kind =
                    Kind::Ask(it.map(|s| s.parse().unwrap()).collect()),
                Some("Z") => { let s = t.states.last_mut().unwrap();
                               s.zn = it.next().unwrap().parse().unwrap();
                               s.ze = it.next().unwrap().parse().unwrap();
                               s.z = toks(&mut it); },
                Some("R") => {
                    let lo: u8 = it.next().unwrap().parse().unwrap();
                    let hi: u8 = it.next().unwrap().parse().unwrap();
                    let n: usize = it.next().unwrap().parse().unwrap();
                    let mut os = vec![];
                    for _ in 0..n {
                        let guard = match it.next().unwrap() { "any" => 0, "lt" => 1, "eq" => 2,
                                                               "gt" => 3, "max" => 4, _ => panic!() };
                        let er = it.next().unwrap().parse().unwrap();
                        let next = it.next().unwrap().parse().unwrap();
                        let tk = toks(&mut it);
                        os.push(Outcome { guard, er, next, toks: tk });
                    }
                    let s = t.states.last_mut().unwrap();
                    s.runs.push((lo, hi, os));
                    let r = (s.runs.len() - 1) as u16;
                    for _ in lo..=hi { s.row.push(r); }
                },
                _ => {}
            }
        }
        t
    }
}
