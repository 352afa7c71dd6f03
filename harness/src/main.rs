//! Conformance harness: drives http-box with inputs derived from the TLA+ specification and
//! compares every call with what the specification says.
mod codes;
mod text;
mod defaults;
mod exec;
mod gen;
mod giant;
mod guard;
mod raw;
mod record;
mod rng;
mod run;
mod several;
mod memory;
mod connection;
mod sim;
mod table;
mod util;

use exec::*;
use gen::*;
use rng::Rng;
use run::*;
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use table::*;

#[global_allocator]
static ALLOC: memory::Counting = memory::Counting;

struct Opts { m: HashMap<String, String> }
impl Opts {
    fn s(&self, k: &str, d: &str) -> String { self.m.get(k).cloned().unwrap_or(d.to_string()) }
    fn n(&self, k: &str, d: u64) -> u64 { self.m.get(k).map_or(d, |v| v.parse().unwrap()) }
}

#[derive(Default)]
struct Stats { cases: u64, runs: u64, bytes: u64, cells: u64, div: BTreeMap<String, u64> }

const SWEEP: u64 = 1 << 56;
const WALK: u64 = 2 << 56;
const BIG: u64 = 3 << 56;
const HIST: u64 = 4 << 56;
const DEEP: u64 = 5 << 56;
const FILE: u64 = 6 << 56;
const PUMP: u64 = 7 << 56;

struct Ctx<'t> {
    t: &'t Table,
    paths: Paths,
    seed: u64,
    words: Vec<Vec<u8>>,
    only: Option<String>,
    sweep: Vec<u32>,
    files: Vec<Msg>,
}

impl<'t> Ctx<'t> {
    /// The case with this number: always the same for the same seed.
    fn make(&self, id: u64) -> Option<(Case, usize, u32)> {
        let t = self.t;
        let kind = id >> 56 << 56;
        let i = id & !(0xFFu64 << 56);
        let mut r = Rng::new(self.seed ^ kind, i);
        let r = &mut r;
        let only = self.only.as_deref();
        match kind {
            SWEEP => {
                // one byte in one state, and a little of what comes after
                let st = self.sweep[(i / 256) as usize % self.sweep.len()];
                let b = (i % 256) as u8;
                let mut m = self.paths.to(t, st, r)?;
                let mark = m.input.len();
                m.input.push(b);
                let (s0, l0) = m.start(t);
                let mut sim = sim::Sim::new(t, s0, l0, &m.answers);
                for &b in &m.input { if sim.ended() || sim.step(b) != 0 { break; } }
                let n = if r.chance(30) { 0 } else { r.usize(14) };
                let cfg = WalkCfg { budget: n, err: 2, stay: 20, words: 0, maxlen: 20 };
                let mut input = std::mem::take(&mut m.input);
                if !sim.ended() { walk(t, &mut sim, &mut input, r, &cfg, &[]); }
                if r.chance(30) { input.extend_from_slice(&[b, r.below(256) as u8]); }
                m.input = input;
                let n = m.input.len();
                Some((Case { msgs: vec![(m, n)] }, mark, 0))
            },
            WALK | DEEP => {
                let m = random_msg(t, r, only, &self.words, false);
                let n = m.input.len();
                Some((Case { msgs: vec![(m, n)] }, r.usize(n + 1), if kind == DEEP { 2 } else { 1 }))
            },
            BIG => {
                let m = random_msg(t, r, only, &self.words, true);
                let n = m.input.len();
                Some((Case { msgs: vec![(m, n)] }, r.usize(n + 1), 0))
            },
            HIST => {
                let k = if r.chance(1) { 5 + r.usize(45) } else { 2 + r.usize(3) };
                let mut msgs = vec![];
                for j in 0..k {
                    let o = if r.chance(50) { only } else { None };
                    let m = if r.chance(25) && j + 1 < k {
                        // stop in some state
                        let st = r.usize(t.states.len()) as u32;
                        match self.paths.to(t, st, r) { Some(m) => m, None => random_msg(t, r, o, &self.words, false) }
                    } else { random_msg(t, r, if j + 1 == k { only } else { o }, &self.words, false) };
                    let n = m.input.len();
                    let stop = if r.chance(50) { n } else { r.usize(n + 1) };
                    msgs.push((m, stop));
                }
                let n = msgs[k - 1].0.input.len();
                Some((Case { msgs }, r.usize(n + 1), 1))
            },
            PUMP => {
                let n = if r.chance(20) { 66_000 + r.usize(5_000) } else { *r.pick(&[258, 300, 520, 1030, 2050, 4200]) };
                let m = pumped(t, r, only, &self.words, n)?;
                let n = m.input.len();
                Some((Case { msgs: vec![(m, n)] }, r.usize(n + 1), 0))
            },
            FILE => {
                let m = self.files[i as usize % self.files.len()].clone();
                let n = m.input.len();
                Some((Case { msgs: vec![(m, n)] }, r.usize(n + 1), if n < 400 { 2 } else { 1 }))
            },
            _ => None,
        }
    }

    fn make_variants(&self, id: u64, c: &Case, mark: usize, level: u32, out: &mut Vec<Variant>) {
        let mut r = Rng::new(self.seed ^ 0x5EED, id);
        variants(&mut r, c.msgs.last().unwrap().0.input.len(), mark, level, out);
    }

    /// Variants of the earlier messages of a history.
    fn prefix_variants(&self, id: u64, j: usize, c: &Case) -> Vec<Variant> {
        let mut r = Rng::new(self.seed ^ 0xABCD, id.wrapping_mul(64).wrapping_add(j as u64));
        let mut v = vec![];
        let n = c.msgs.len();
        for (m, stop) in &c.msgs[..n - 1] {
            let mut all = vec![];
            variants(&mut r, (*stop).min(m.input.len()), 0, 0, &mut all);
            let mut x = r.pick(&all).clone();
            x.probe = r.chance(50);
            v.push(x);
        }
        v
    }
}

fn load_words(path: &str) -> Vec<Vec<u8>> {
    std::fs::read_to_string(path).map(|s| s.lines().filter(|l| !l.is_empty()).map(unhex).collect()).unwrap_or_default()
}

fn load_files(path: &str, t: &Table) -> Vec<Msg> {
    let mut out = vec![];
    if let Ok(s) = std::fs::read_to_string(path) {
        let (c, _) = parse(t, &s);
        for (m, _) in c.msgs { if (m.init == Init::H2) == (t.proto == 2) { out.push(m); } }
    }
    out
}

fn main() {
    let mut m = HashMap::new();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mode = args[0].clone();
    let mut i = 1;
    while i + 1 < args.len() { m.insert(args[i].trim_start_matches("--").to_string(), args[i + 1].clone()); i += 2; }
    let o = Opts { m };
    if let Ok(s) = std::fs::read_to_string(o.s("nums", "")) {
        let _ = gen::NUMS.set(s.lines().filter_map(|l| l.parse().ok()).collect());
    }
    if std::env::var("LOUD").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    guard::install();
    let code = match &mode[..] {
        "run" => main_run(&o),
        "dump" => main_dump(&o),
        "replay" => main_replay(&o),
        "util" => main_util(&o),
        "raw" => main_raw(&o),
        "codes" => main_codes(&o),
        "giant" => main_giant(&o),
        "defaults" => main_defaults(&o),
        "several" => main_several(&o),
        "memory" => main_memory(&o),
        "connection" => main_connection(&o),
        "record" => main_record(&o),
        "probe" => main_probe(),
        _ => 2,
    };
    std::process::exit(code);
}

fn context<'t>(o: &Opts, t: &'t Table) -> Ctx<'t> {
    let only = o.m.get("only").cloned();
    let groups: Vec<String> = o.s("groups", "").split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    let tys: Vec<String> = o.s("types", "").split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    let sweep = (0..t.states.len() as u32).filter(|&i| {
        let s = &t.states[i as usize];
        s.kind == Kind::Normal && (groups.is_empty() && tys.is_empty() || groups.contains(&t.groups[s.group as usize]) || tys.contains(&s.ty))
    }).collect();
    Ctx { t, paths: Paths::new(t), seed: o.n("seed", 1), words: load_words(&o.s("words", "")), only,
          sweep, files: load_files(&o.s("files", ""), t) }
}

fn main_run(o: &Opts) -> i32 {
    let table = Table::load(&o.s("table", ""));
    let ctx = context(o, &table);
    let focus = o.s("focus", "");
    PLACE.store(focus == "C21", Ordering::Relaxed);
    let threads = o.n("threads", 8) as usize;
    let replays = o.s("replays", "/tmp");
    let mut jobs: Vec<(u64, u64)> = vec![];
    if o.n("sweep", 1) > 0 { jobs.push((SWEEP, ctx.sweep.len() as u64 * 256 * o.n("sweep", 1))); }
    jobs.push((WALK, o.n("walk", 20000)));
    jobs.push((BIG, o.n("big", 500)));
    jobs.push((HIST, o.n("hist", 5000)));
    jobs.push((DEEP, o.n("deep", 500)));
    jobs.push((PUMP, o.n("pump", o.n("big", 500) * 2)));
    if !ctx.files.is_empty() { jobs.push((FILE, ctx.files.len() as u64 * o.n("file", 1))); }
    let total: u64 = jobs.iter().map(|j| j.1).sum();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let hits = Mutex::new(0u64);
    let stats = Mutex::new(Stats::default());
    guard::watchdog(threads, o.n("hang", 20));
    let nth = |mut k: u64| -> u64 {
        for (kind, n) in &jobs { if k < *n { return kind | k; } k -= n; }
        0
    };
    std::thread::scope(|s| {
        for th in 0..threads {
            let (ctx, next, stop, hits, stats, focus, replays, nth) = (&ctx, &next, &stop, &hits, &stats, &focus, &replays, &nth);
            s.spawn(move || {
                guard::THREAD.with(|t| t.set(th));
                guard::alt_stack();
                let g = guard::Guard::new(1 << 20);
                let mut h = H::new();
                let mut vs = vec![];
                let mut st = Stats::default();
                while !stop.load(Ordering::Relaxed) {
                    let k0 = next.fetch_add(64, Ordering::Relaxed);
                    if k0 >= total { break; }
                    for k in k0..(k0 + 64).min(total) {
                        let id = nth(k);
                        guard::set_case(id);
                        let Some((case, mark, level)) = ctx.make(id) else { continue };
                        st.cases += 1;
                        if id >> 56 << 56 == SWEEP { st.cells += 1; }
                        ctx.make_variants(id, &case, mark, level, &mut vs);
                        for (j, v) in vs.iter().enumerate() {
                            let mut all = if case.msgs.len() > 1 { ctx.prefix_variants(id, j, &case) } else { vec![] };
                            all.push(v.clone());
                            st.runs += 1;
                            st.bytes += case.msgs.iter().map(|m| m.0.input.len() as u64).sum::<u64>();
                            if let Err((at, d)) = run_case(ctx.t, &g, &mut h, &case, &all) {
                                let tg = tags(ctx.t, &g, &mut h, &case, &all, at, &d);
                                for x in &tg { *st.div.entry(x.to_string()).or_insert(0) += 1; }
                                if focus.is_empty() || tg.contains(&&focus[..]) {
                                    let mut n = hits.lock().unwrap();
                                    *n += 1;
                                    if *n <= 8 {
                                        let path = format!("{}/{}-{}-{}.case", replays, if focus.is_empty() { "any" } else { focus }, ctx.t.proto, *n);
                                        let s = &ctx.t.states[d.loc as usize];
                                        let text = format!("{}# message {} kind {:?} in {}/{} at {}: {}\n# properties {}\n",
                                            dump(ctx.t, &case, &all), at, d.kind, s.c, s.ty, d.at, d.detail, tg.join(","));
                                        let _ = std::fs::write(&path, &text);
                                        println!("DIV {} {} {:?} {}/{} at {}: {}", path, tg.join(","), d.kind, s.c, s.ty, d.at, d.detail.replace('\n', " "));
                                    }
                                    if *n >= 200 { stop.store(true, Ordering::Relaxed); }
                                }
                                break;
                            }
                        }
                        if stop.load(Ordering::Relaxed) { break; }
                    }
                }
                guard::set_case(0);
                let mut a = stats.lock().unwrap();
                a.cases += st.cases; a.runs += st.runs; a.bytes += st.bytes; a.cells += st.cells;
                for (k, v) in st.div { *a.div.entry(k).or_insert(0) += v; }
            });
        }
    });
    let a = stats.lock().unwrap();
    println!("STATS cases={} runs={} bytes={} cells={} states={} hits={}", a.cases, a.runs, a.bytes, a.cells, ctx.sweep.len(), *hits.lock().unwrap());
    for (k, v) in &a.div { println!("TAG {} {}", k, v); }
    if *hits.lock().unwrap() > 0 { 1 } else { 0 }
}

fn main_dump(o: &Opts) -> i32 {
    let table = Table::load(&o.s("table", ""));
    let ctx = context(o, &table);
    let id = o.n("id", 0);
    let (case, mark, level) = ctx.make(id).expect("case");
    let mut vs = vec![];
    ctx.make_variants(id, &case, mark, level, &mut vs);
    // find the variant in child processes: run them one by one, flushing the text first
    let j = o.n("variant", 0) as usize;
    if j >= vs.len() { return 4; }
    let mut all = if case.msgs.len() > 1 { ctx.prefix_variants(id, j, &case) } else { vec![] };
    all.push(vs[j].clone());
    print!("{}", dump(&table, &case, &all));
    0
}

fn main_replay(o: &Opts) -> i32 {
    let text = std::fs::read_to_string(o.s("case", "")).unwrap();
    if text.lines().any(|l| l.starts_with("connection ")) { return replay_connection(&text); }
    if let Some(l) = text.lines().find(|l| l.starts_with("several ")) {
        let f: Vec<u64> = l.split_whitespace().skip(1).map(|x| x.parse().unwrap()).collect();
        let tables = several_tables(o);
        let t = if f[0] == 1 { tables.t1 } else { tables.t2 };
        let (case, vs) = parse(t, &text);
        return match several::check(&tables, t, &guard::Guard::new(1 << 20), &mut H::new(), &case, &vs, f[1], f[2]).0 {
            Some(several::Odd::Main(x)) | Some(several::Odd::Other(x)) => { println!("DIV C25 {}", x); println!("PROPERTIES C25"); 1 }, None => { println!("OK"); 0 } };
    }
    let table = Table::load(&o.s("table", ""));
    if table.proto == 3 {
        return match util::replay(&table, &text) { Some(v) => { println!("DIV {} {}", v.tag, v.text); println!("PROPERTIES {}", v.tag); 1 }, None => { println!("OK"); 0 } };
    }
    if text.starts_with("giant") {
        let (_, found) = giant::run(1, false, "");
        for f in &found { println!("DIV {}", f.text); println!("PROPERTIES {}", f.tags.join(",")); }
        return if found.is_empty() { println!("OK"); 0 } else { 1 };
    }
    if text.starts_with("raw ") {
        let f: Vec<u64> = text.lines().next().unwrap().split_whitespace().skip(1).map(|x| x.parse().unwrap()).collect();
        let (v, cuts, sched) = raw_case(f[0], f[1]);
        return match raw::check(&v, &cuts, &sched, &guard::Guard::new(1 << 20), &mut H::new()) {
            Some((t, x)) => { println!("DIV {} {}", t, x); println!("PROPERTIES {}", t); 1 }, None => { println!("OK"); 0 } };
    }
    if let Some(l) = text.lines().find(|l| l.starts_with("defaults ")) {
        let f: Vec<u64> = l.split_whitespace().skip(1).map(|x| x.parse().unwrap()).collect();
        let (case, vs) = parse(&table, &text);
        return match defaults::check(&table, &guard::Guard::new(1 << 20), &case.msgs[0].0, f[0], f[1] == 1, &vs[0].cuts) {
            Some(x) => { println!("DIV C22 {}", x); println!("PROPERTIES C22"); 1 }, None => { println!("OK"); 0 } };
    }
    if let Some(l) = text.lines().find(|l| l.starts_with("memory ")) {
        let stop = l[7..].trim().parse().unwrap();
        let (case, vs) = parse(&table, &text);
        return match memory::check(&table, &guard::Guard::new(1 << 20), &mut memory::Z::new(), &case.msgs[0].0, &vs[0].cuts, stop, &mut 0) {
            Some(x) => { println!("DIV C26 {}", x); println!("PROPERTIES C26"); 1 }, None => { println!("OK"); 0 } };
    }
    let (case, vs) = parse(&table, &text);
    PLACE.store(text.contains(" kind Where "), Ordering::Relaxed);
    guard::watchdog(1, o.n("hang", 10));
    guard::set_case(1);
    let g = guard::Guard::new(1 << 20);
    let mut h = H::new();
    match run_case(&table, &g, &mut h, &case, &vs) {
        Ok(()) => { println!("OK"); 0 },
        Err((at, d)) => {
            let tg = tags(&table, &g, &mut h, &case, &vs, at, &d);
            let s = &table.states[d.loc as usize];
            println!("DIV message {} kind {:?} in {}/{} at {}: {}", at, d.kind, s.c, s.ty, d.at, d.detail);
            println!("PROPERTIES {}", tg.join(","));
            1
        }
    }
}

struct Report { focus: String, replays: String, name: &'static str, hits: Mutex<u64>, div: Mutex<BTreeMap<String, u64>> }
impl Report {
    fn new(o: &Opts, name: &'static str) -> Report {
        Report { focus: o.s("focus", ""), replays: o.s("replays", "/tmp"), name, hits: Mutex::new(0), div: Mutex::new(BTreeMap::new()) }
    }
    /// Returns true when enough has been seen.
    fn add(&self, tag: &str, text: &str, case: &str) -> bool {
        *self.div.lock().unwrap().entry(tag.to_string()).or_insert(0) += 1;
        if !self.focus.is_empty() && self.focus != tag { return false; }
        let mut n = self.hits.lock().unwrap();
        *n += 1;
        if *n <= 8 {
            let path = format!("{}/{}-{}-{}.case", self.replays, tag, self.name, *n);
            let _ = std::fs::write(&path, case);
            println!("DIV {} {} {}", path, tag, text.replace('\n', " "));
        }
        *n >= 200
    }
    fn finish(&self, stats: &str) -> i32 {
        let n = *self.hits.lock().unwrap();
        println!("STATS {} hits={}", stats, n);
        for (k, v) in self.div.lock().unwrap().iter() { println!("TAG {} {}", k, v); }
        if n > 0 { 1 } else { 0 }
    }
}

/// Runs `f` for the numbers below `total` on all threads.
fn parallel<F: Fn(u64, &guard::Guard, &mut H) -> bool + Sync>(o: &Opts, total: u64, f: F) {
    let threads = o.n("threads", 8) as usize;
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    guard::watchdog(threads, o.n("hang", 20));
    std::thread::scope(|s| for th in 0..threads {
        let (next, stop, f) = (&next, &stop, &f);
        s.spawn(move || {
            guard::THREAD.with(|t| t.set(th));
            guard::alt_stack();
            let g = guard::Guard::new(1 << 20);
            let mut h = H::new();
            while !stop.load(Ordering::Relaxed) {
                let k0 = next.fetch_add(64, Ordering::Relaxed);
                if k0 >= total { break; }
                for k in k0..(k0 + 64).min(total) {
                    guard::set_case(k + 1);
                    if f(k, &g, &mut h) { stop.store(true, Ordering::Relaxed); }
                }
            }
            guard::set_case(0);
            guard::set_input(&[]);
        });
    });
}

fn random_cuts(r: &mut Rng, n: usize) -> Vec<usize> {
    if n < 2 { return vec![]; }
    if r.chance(25) { return (1..n).collect(); }
    let k = r.usize(5);
    let mut c: Vec<usize> = (0..k).map(|_| 1 + r.usize(n - 1)).collect();
    c.sort(); c.dedup(); c
}

fn main_util(o: &Opts) -> i32 {
    let t = Table::load(&o.s("table", ""));
    let words = load_words(&o.s("words", ""));
    let rep = Report::new(o, "util");
    let seed = o.n("seed", 1);
    let which = o.s("machine", "all");
    let mut machs = vec![];
    for m in util_machines(&t) {
        let kind = match m { util::Mach::Decode => "decode", util::Mach::Query => "query", _ => "field" };
        let st = m.init(&t).unwrap();
        if which == "all" || which.split(',').any(|w| w == kind) { machs.push((m, st, t.states[st as usize].ty.clone())); }
    }
    let agree = which.split(',').any(|w| w == "agree") || which == "all";
    let mut runs = 0u64;
    let cases = AtomicU64::new(0);
    // all short inputs over a byte per class
    let exh = o.n("exh", 4);
    for (mi, (m, st, ty)) in machs.iter().enumerate() {
        let sigma = util::alphabet(&t, ty);
        let mut len = if matches!(m, util::Mach::Field(..)) { exh.saturating_sub(1) } else { exh };
        while (sigma.len() as u64).pow(len as u32) > o.n("limit", 3_000_000) { len -= 1; }
        let total = (sigma.len() as u64).pow(len as u32);
        runs += total;
        let _ = mi;
        // (shorter inputs are the prefixes: one of every residue runs them)
        parallel(o, total, |k, g, h| {
            let mut x = k;
            let mut v = vec![0u8; len as usize];
            for b in v.iter_mut() { *b = sigma[(x % sigma.len() as u64) as usize]; x /= sigma.len() as u64; }
            let mut stop = false;
            for n in (0..=len as usize).rev() {
                if n < len as usize && v[n..].iter().any(|b| *b != sigma[0]) { break; }
                let v = &v[..n];
                guard::set_input(v);
                cases.fetch_add(1, Ordering::Relaxed);
                if let Some(d) = util::check(&t, *st, *m, g, v, k % 4 == 0) { stop |= rep.add(d.tag, &d.text, &util::case_text("util", *m, v, &[], &d.text)); }
                if agree && *m == util::Mach::Query {
                    if let Some(d) = util::agree(g, h, v, &[]) { stop |= rep.add(d.tag, &d.text, &util::case_text("agree", *m, v, &[], &d.text)); }
                }
            }
            stop
        });
    }
    if agree && machs.is_empty() {
        let m = util::Mach::Query;
        let st = m.init(&t).unwrap();
        let sigma = util::alphabet(&t, &t.states[st as usize].ty);
        let len = exh;
        let total = (sigma.len() as u64).pow(len as u32);
        runs += total;
        parallel(o, total, |k, g, h| {
            let mut x = k;
            let mut v = vec![0u8; len as usize];
            for b in v.iter_mut() { *b = sigma[(x % sigma.len() as u64) as usize]; x /= sigma.len() as u64; }
            guard::set_input(&v);
            cases.fetch_add(1, Ordering::Relaxed);
            match util::agree(g, h, &v, &[]) { Some(d) => rep.add(d.tag, &d.text, &util::case_text("agree", m, &v, &[], &d.text)), None => false }
        });
    }
    // every byte in every state, and random inputs
    let n = o.n("n", 200_000);
    let sweep: Vec<(usize, u32)> = machs.iter().enumerate().map(|(i, m)| (i, m.1)).collect();
    if !sweep.is_empty() || agree {
        runs += n;
        parallel(o, n, |k, g, h| {
            let mut r = Rng::new(seed ^ 0x0717, k);
            let r = &mut r;
            if sweep.is_empty() || (agree && r.chance(30)) {
                let m = if r.chance(80) { util::Mach::Query } else { util::Mach::Decode };
                let v = util::random(&t, m.init(&t).unwrap(), r, &words);
                let cuts = random_cuts(r, v.len());
                guard::set_input(&v);
                cases.fetch_add(1, Ordering::Relaxed);
                return match util::agree(g, h, &v, &cuts) { Some(d) => rep.add(d.tag, &d.text, &util::case_text("agree", m, &v, &cuts, &d.text)), None => false };
            }
            let (i, _) = *r.pick(&sweep);
            let (m, st, _) = &machs[i];
            let mut v = util::random(&t, *st, r, &words);
            if r.chance(30) && !v.is_empty() { let j = r.usize(v.len()); v[j] = (k & 255) as u8; }
            guard::set_input(&v);
            cases.fetch_add(1, Ordering::Relaxed);
            let d = util::check(&t, *st, *m, g, &v, r.chance(30)).or_else(|| if r.chance(10) { util::check_listen(*m, g, &v) } else { None });
            match d { Some(d) => rep.add(d.tag, &d.text, &util::case_text("util", *m, &v, &[], &d.text)), None => false }
        });
    }
    rep.finish(&format!("cases={} runs={} machines={}", cases.load(Ordering::Relaxed), runs, machs.len()))
}

fn raw_case(seed: u64, k: u64) -> (Vec<u8>, Vec<usize>, Sched) {
    let mut r = Rng::new(seed ^ 0xA11, k);
    let v = raw::frames(&mut r);
    let cuts = random_cuts(&mut r, v.len());
    let sched = match r.below(3) { 0 => Sched::Never, 1 => Sched::Always, _ => Sched::Every(2) };
    (v, cuts, sched)
}

fn main_raw(o: &Opts) -> i32 {
    let rep = Report::new(o, "raw");
    let seed = o.n("seed", 1);
    let n = o.n("n", 200_000);
    parallel(o, n, |k, g, h| {
        let (v, cuts, sched) = raw_case(seed, k);
        guard::set_input(&v);
        match raw::check(&v, &cuts, &sched, g, h) {
            Some((tag, text)) => rep.add(tag, &text, &format!("raw {} {}\n# input={} cuts={:?} sched={:?}\n# {}\n", seed, k, hex(&v), cuts, sched, text)),
            None => false }
    });
    rep.finish(&format!("cases={}", n))
}

fn main_codes(o: &Opts) -> i32 {
    let rep = Report::new(o, "codes");
    let text = std::fs::read_to_string(o.s("table", "")).unwrap();
    let (n, found) = codes::run(&text, o.n("seed", 1));
    for f in &found { rep.add(f.tag, &f.text, &format!("codes\n# {}\n", f.text)); }
    rep.finish(&format!("cases={}", n))
}

fn main_defaults(o: &Opts) -> i32 {
    let t = Table::load(&o.s("table", ""));
    let rep = Report::new(o, "defaults");
    let ctx = context(o, &t);
    let n = o.n("n", 100_000);
    let cells = ctx.sweep.len() as u64 * 256;
    parallel(o, n + cells, |k, g, _| {
        let id = if k < cells { SWEEP | k } else { WALK | k };
        let Some((c, mark, _)) = ctx.make(id) else { return false };
        let mut r = Rng::new(ctx.seed ^ 0xDEF, id);
        let m = &c.msgs[0].0;
        guard::set_input(&m.input);
        let (mask, asks) = (defaults::mask(&mut r), r.chance(50));
        let cuts = if r.chance(30) { vec![mark] } else { random_cuts(&mut r, m.input.len()) };
        match defaults::check(&t, g, m, mask, asks, &cuts) {
            Some(text) => { let v = Variant { cuts: cuts.clone(), ..Variant::whole() };
                rep.add("C22", &text, &format!("defaults {} {}\n{}# {}\n", mask, asks as u8, dump(&t, &c, &[v]), text)) },
            None => false }
    });
    rep.finish(&format!("cases={} cells={}", n + cells, cells))
}

fn main_memory(o: &Opts) -> i32 {
    let t = Table::load(&o.s("table", ""));
    if t.proto == 3 { return memory_util(o, &t); }
    let rep = Report::new(o, "memory");
    let n = o.n("n", 100_000);
    let ctx = context(o, &t);
    let cells = ctx.sweep.len() as u64 * 256;
    let inplace = AtomicU64::new(0);
    parallel(o, n + cells, |k, g, _| {
        thread_local! { static Z: std::cell::RefCell<memory::Z> = std::cell::RefCell::new(memory::Z::new()); }
        let mut r = Rng::new(ctx.seed ^ 0x3E30, k);
        let id = if k < cells { SWEEP | k } else { (match r.below(20) { 0 => PUMP, 1 => BIG, _ => WALK }) | k };
        let Some((c, mark, _)) = ctx.make(id) else { return false };
        let m = &c.msgs[0].0;
        guard::set_input(&m.input);
        let cuts = match r.below(4) { 0 => vec![mark], 1 => vec![], _ => random_cuts(&mut r, m.input.len()) };
        let stop = match r.below(4) { 0 => 1, 1 => 2 + r.below(4) as u32, _ => 0 };
        let mut seen = 0;
        let x = Z.with(|z| memory::check(&t, g, &mut z.borrow_mut(), m, &cuts, stop, &mut seen));
        inplace.fetch_add(seen, Ordering::Relaxed);
        match x {
            Some(text) => { let v = Variant { cuts: cuts.clone(), ..Variant::whole() };
                rep.add("C26", &text, &format!("memory {}\n{}# {}\n", stop, dump(&t, &c, &[v]), text)) },
            None => false }
    });
    rep.finish(&format!("cases={} cells={} inplace={}", n + cells, cells, inplace.load(Ordering::Relaxed)))
}

fn memory_util(o: &Opts, t: &Table) -> i32 {
    let rep = Report::new(o, "memory");
    let words = load_words(&o.s("words", ""));
    let (seed, n) = (o.n("seed", 1), o.n("n", 100_000));
    let machs = util_machines(t);
    parallel(o, n, |k, _, _| {
        let mut r = Rng::new(seed ^ 0x3E31, k);
        let m = *r.pick(&machs);
        let st = m.init(t).unwrap();
        let mut v = util::random(t, st, &mut r, &words);
        for _ in 0..r.below(6) { if v.len() < 60_000 { v.extend(util::random(t, st, &mut r, &words)); } }
        if r.chance(20) && v.len() < 40 { v = v.repeat(1 + r.usize(800)); }
        guard::set_input(&v);
        match memory::check_util(m, &v) { Some(text) => rep.add("C26", &text, &util::case_text("memory", m, &v, &[], &text)), None => false }
    });
    rep.finish(&format!("cases={}", n))
}

/// Every machine of the utilities that the table describes.
fn util_machines(t: &Table) -> Vec<util::Mach> {
    t.states.iter().filter_map(|s| if s.c == "Plain" { Some(util::Mach::Decode) } else if s.c == "First" { Some(util::Mach::Query) } else if s.c == "FStart" {
        let p: Vec<&str> = s.ty.split('-').collect();
        Some(util::Mach::Field(p[1].parse().unwrap(), p[2] == "True")) } else { None }).collect()
}

fn several_tables(o: &Opts) -> several::Tables {
    let load = |k: &str| -> &'static Table { Box::leak(Box::new(Table::load(&o.s(k, "")))) };
    several::Tables { t1: load("table1"), t2: load("table2"), t3: load("table3") }
}

/// Does the plain case pass in a process in which there is nothing else?
fn alone(o: &Opts, t: &Table, text: &str, k: u64) -> bool {
    let path = format!("{}/alone-{}-{}.case", o.s("replays", "/tmp"), t.proto, k);
    std::fs::write(&path, text).unwrap();
    let r = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["replay", "--table", &o.s(&format!("table{}", t.proto), ""), "--case", &path, "--nums", &o.s("nums", "")]).output();
    let _ = std::fs::remove_file(&path);
    r.map_or(false, |r| r.status.code() == Some(0))
}

fn main_several(o: &Opts) -> i32 {
    let tables = several_tables(o);
    let rep = Report::new(o, "several");
    let (c1, c2) = (context(o, tables.t1), context(o, tables.t2));
    let n = o.n("n", 100_000);
    let (calls, asked) = (AtomicU64::new(0), AtomicU64::new(0));
    parallel(o, n, |k, g, h| {
        let mut r = Rng::new(c1.seed ^ 0x5EFE, k);
        let ctx = if r.chance(60) { &c1 } else { &c2 };
        let id = match r.below(10) { 0..=5 => WALK, 6..=7 => HIST, _ => SWEEP } | r.below(1 << 40);
        let Some((c, mark, _)) = ctx.make(id) else { return false };
        guard::set_input(&c.msgs.last().unwrap().0.input);
        let mut vs = vec![];
        ctx.make_variants(id, &c, mark, 1, &mut vs);
        let j = r.usize(vs.len());
        let mut all = if c.msgs.len() > 1 { ctx.prefix_variants(id, j, &c) } else { vec![] };
        all.push(vs[j].clone());
        let (odd, m) = several::check(&tables, ctx.t, g, h, &c, &all, c1.seed, k);
        calls.fetch_add(m, Ordering::Relaxed);
        let (x, other) = match odd { None => return false, Some(several::Odd::Main(x)) => (x, false), Some(several::Odd::Other(x)) => (x, true) };
        let plain = dump(ctx.t, &c, &all);
        // wrong without the others as well: not the matter here
        if !other && (asked.fetch_add(1, Ordering::Relaxed) > 400 || !alone(o, ctx.t, &plain, k)) { return false; }
        rep.add("C25", &x, &format!("several {} {} {}\n{}# {}\n", ctx.t.proto, c1.seed, k, plain, x))
    });
    rep.finish(&format!("cases={} calls={}", n, calls.load(Ordering::Relaxed)))
}

fn main_connection(o: &Opts) -> i32 {
    let rep = Report::new(o, "connection");
    let (seed, n, proto) = (o.n("seed", 1), o.n("n", 100_000), o.n("proto", 1) as u8);
    let all = connection::load(&o.s("messages", ""));
    let nums = gen::NUMS.get().cloned().unwrap_or_default();
    let messages = AtomicU64::new(0);
    parallel(o, n, |k, g, _| {
        let (drawn, cuts, sched, fresh) = connection::draw(&all, &nums, seed, k);
        let ms: Vec<&connection::Message> = drawn.iter().map(|m| &**m).collect();
        messages.fetch_add(ms.len() as u64, Ordering::Relaxed);
        let Some(x) = connection::check(proto, &ms, &cuts, &sched, fresh, g) else { return false };
        // as few messages as show it
        let mut few = ms.clone();
        let mut i = 0;
        while i < few.len() && few.len() > 1 {
            let mut one = few.clone();
            one.remove(i);
            if connection::check(proto, &one, &cuts, &sched, fresh, g).is_some() { few = one; } else { i += 1; }
        }
        let x = connection::check(proto, &few, &cuts, &sched, fresh, g).unwrap_or(x);
        rep.add("C27", &x, &format!("connection {} {} {}\nsched {}\n{}\n# {}\n", proto, fresh as u8, cuts.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","),
            match sched { Sched::Never => "never".to_string(), Sched::Always => "1".to_string(), Sched::Every(n) => n.to_string(),
                Sched::Nth(ref v) => format!("at {}", v.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",")) },
            few.iter().map(|m| format!("message {}", connection::text(m))).collect::<Vec<_>>().join("\n"), x))
    });
    rep.finish(&format!("cases={} messages={} different={}", n, messages.load(Ordering::Relaxed), all.len()))
}

fn replay_connection(text: &str) -> i32 {
    let nums = |s: &str| -> Vec<u32> { s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect() };
    let (mut proto, mut fresh, mut cuts, mut sched, mut ms) = (1, false, vec![], Sched::Never, vec![]);
    for l in text.lines() {
        let f: Vec<&str> = l.split_whitespace().collect();
        match f.first() {
            Some(&"connection") => { proto = f[1].parse().unwrap(); fresh = f[2] == "1"; cuts = nums(f.get(3).unwrap_or(&"")).iter().map(|&x| x as usize).collect(); },
            Some(&"sched") => sched = match f[1] { "never" => Sched::Never, "at" => Sched::Nth(nums(f[2])), n => Sched::Every(n.parse().unwrap()) },
            Some(&"message") => ms.push(connection::line(&l[8..])),
            _ => {},
        }
    }
    match connection::check(proto, &ms.iter().collect::<Vec<_>>(), &cuts, &sched, fresh, &guard::Guard::new(1 << 20)) {
        Some(x) => { println!("DIV C27 {}", x); println!("PROPERTIES C27"); 1 }, None => { println!("OK"); 0 } }
}

fn main_giant(o: &Opts) -> i32 {
    let rep = Report::new(o, "giant");
    let (n, found) = giant::run(o.n("seed", 1), o.n("deep", 0) > 0, &rep.focus);
    for f in &found { for t in &f.tags { rep.add(t, &f.text, &format!("giant\n# {}\n", f.text)); } }
    rep.finish(&format!("cases={}", n))
}

/// Prints the known findings that are (still) there.
fn main_probe() -> i32 {
    use util::*;
    let bad = |v: &[u8]| std::str::from_utf8(v).is_err();
    if let Ok(o) = actual(Mach::Decode, b"%FF", Listen::First) { if o.err.is_none() && bad(&o.out) { println!("FOUND decode-utf8"); } }
    if let Ok(o) = actual(Mach::Query, b"a=%FF", Listen::First) { if o.items.iter().any(|i| i.1.as_ref().map_or(false, |v| bad(v))) { println!("FOUND query-utf8"); } }
    if let Ok(o) = actual(Mach::Field(b';', true), b"a=\xFF", Listen::First) { if o.items.iter().any(|i| i.1.as_ref().map_or(false, |v| bad(v))) { println!("FOUND field-utf8"); } }
    let g = guard::Guard::new(4096);
    let mut h = H::new();
    // SETTINGS with two entries
    let two = [0, 0, 12, 4, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 9, 0, 3, 0, 0, 0, 7];
    if let Ok(x) = raw::run(&two, &[], &Sched::Never, &g, &mut h) {
        let n = x.toks.iter().filter(|x| sim::tname(**x) == SETTINGS).count();
        if n != 2 { println!("FOUND settings-entries"); }
    }
    // RST_STREAM, PRIORITY and WINDOW_UPDATE with a length that their type does not have
    for (name, ty) in [("priority-length", 2u8), ("rst-stream-length", 3), ("window-update-length", 8)] {
        let mut v = vec![0, 0, 8, ty, 0, 0, 0, 0, 1];
        v.extend_from_slice(&[0; 8]);
        v.extend_from_slice(&[0, 0, 0, 6, 0, 0, 0, 0, 0]);     // PING without payload
        if let Ok(x) = raw::run(&v, &[], &Sched::Never, &g, &mut h) {
            let n = x.toks.iter().filter(|x| sim::tname(**x) == FRAME_FORMAT).count();
            let last = x.toks.iter().filter(|x| sim::tname(**x) == PING_END).count();
            if x.err.is_none() && (n != 2 || last != 1) { println!("FOUND {}", name); }
        }
    }
    0
}

/// Recorded traces: `files` of them, each at most `size` bytes of input.
fn main_record(o: &Opts) -> i32 {
    let t = Table::load(&o.s("table", ""));
    let dir = o.s("out", "/tmp");
    let (files, size, seed) = (o.n("files", 8), o.n("size", 6000) as usize, o.n("seed", 1));
    let which = o.s("machine", "all");
    if t.proto == 3 {
        let words = load_words(&o.s("words", ""));
        let mut machs = vec![];
        for s in &t.states {
            let m = if s.c == "Plain" { util::Mach::Decode } else if s.c == "First" { util::Mach::Query } else { continue };
            if which == "all" || which == m.name() { machs.push(m); }
        }
        let field = which == "all" || which == "field";
        parallel(o, files, |k, _, _| {
            let mut r = Rng::new(seed ^ 0x7EC0, k);
            let mut s = "{\"boundaries\":[]}\n".to_string();
            let mut n = 0;
            while n < size {
                // any byte may delimit a field, also those without a table
                let (m, st) = if field && (machs.is_empty() || r.chance(50)) {
                    let all: Vec<&str> = t.states.iter().filter(|s| s.c == "FStart").map(|s| &s.ty[..]).collect();
                    let p: Vec<&str> = r.pick(&all).split('-').collect();
                    let m = util::Mach::Field(p[1].parse().unwrap(), p[2] == "True");
                    let st = m.init(&t).unwrap();
                    (if r.chance(30) { util::Mach::Field(r.below(256) as u8, r.chance(50)) } else { m }, st)
                } else { let m = *r.pick(&machs); (m, m.init(&t).unwrap()) };
                let mut v = util::random(&t, st, &mut r, &words);
                if let util::Mach::Field(d, _) = m { for _ in 0..r.usize(3) { if !v.is_empty() { let i = r.usize(v.len()); v[i] = d; } } }
                guard::set_input(&v);
                // (what is no UTF-8 is a known finding)
                if !util::text_only(&t, st, m, &v) { continue; }
                if let Some(l) = record::util_line(m, &v) { s.push_str(&l); }
                n += v.len() + 1;
            }
            std::fs::write(format!("{}/{}.ndjson", dir, k), s).unwrap();
            false
        });
        return 0;
    }
    let ctx = context(o, &t);
    PLACE.store(o.n("place", 0) > 0, Ordering::Relaxed);
    parallel(o, files, |k, g, h| {
        let mut s = record::header(&t);
        let mut cases = String::new();
        let mut lines = 1;
        let (mut n, mut i) = (0, 0u64);
        let several = o.n("several", 0) > 0;
        let mut group = vec![];
        while n < size {
            let mut r = Rng::new(seed ^ 0x7EC1, k << 32 | i);
            let id = match r.below(10) { 0..=5 => WALK, 6..=7 => HIST, _ => SWEEP } | (k * 7919 + i * 104729 + seed * 31) % 1_000_000;
            i += 1;
            let Some((mut c, mark, level)) = ctx.make(id) else { continue };
            for m in c.msgs.iter_mut() { m.0.input.truncate(260); m.1 = m.1.min(m.0.input.len()); }
            guard::set_input(&c.msgs.last().unwrap().0.input);
            let mut vs = vec![];
            variants(&mut r, c.msgs.last().unwrap().0.input.len(), mark, level, &mut vs);
            let j = r.usize(vs.len());
            let mut all = if c.msgs.len() > 1 { ctx.prefix_variants(id, j, &c) } else { vec![] };
            for v in all.iter_mut() { v.empties = false; }
            vs[j].empties = false;
            all.push(vs[j].clone());
            for v in &mut all { if v.cuts.len() > 60 { v.cuts.truncate(60); } }
            n += c.msgs.iter().map(|m| m.0.input.len() + 8).sum::<usize>();
            if several {
                group.push((c, all));
                if group.len() < 3 && n < size { continue; }
                if let Some(l) = record::cases(&t, g, &mut r, &group) {
                    // whether each of them is right when it is alone, in another process
                    let fine = group.iter().all(|(c, v)| run_case(&t, g, h, c, v).is_ok() || alone(o, &t, &dump(&t, c, v), k));
                    cases.push_str(&format!("{} {} {}\n", lines + 1, id, if fine { "C25" } else { "alone" }));
                    lines += l.lines().count();
                    s.push_str(&l);
                }
                group.clear();
                continue;
            }
            if let Some(l) = record::case(&t, g, &c, &all) {
                // what the tables say about the same case, to know which property a rejection concerns
                let tg = match run_case(&t, g, h, &c, &all) { Ok(()) => vec![], Err((at, d)) => tags(&t, g, h, &c, &all, at, &d) };
                cases.push_str(&format!("{} {} {}\n", lines + 1, id, tg.join(",")));
                lines += l.lines().count();
                s.push_str(&l);
            }
        }
        std::fs::write(format!("{}/{}.cases", dir, k), cases).unwrap();
        std::fs::write(format!("{}/{}.ndjson", dir, k), s).unwrap();
        false
    });
    0
}
