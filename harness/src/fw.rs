//! Check framework: tapes, case execution, proptest driving, worker
//! processes, evidence and replay files.

use proptest::collection::vec as pvec;
use proptest::prelude::any;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

/// A generated case: two tapes of choices.  Tape `a` is decoded into a
/// program (or datum); each record of tape `b` into one operation.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Case {
    pub a: Vec<u16>,
    pub b: Vec<[u16; 4]>,
}

/// A directory of its own to work in; left and removed at the end.
pub struct WorkDir(PathBuf, PathBuf);
impl WorkDir {
    pub fn enter() -> WorkDir {
        let base = std::env::var("VH_SCRATCH").map(PathBuf::from).unwrap_or(std::env::temp_dir());
        let d = base.join(format!("vh-cwd-{}", std::process::id()));
        let old = std::env::current_dir().unwrap();
        std::fs::create_dir_all(&d).unwrap();
        std::env::set_current_dir(&d).unwrap();
        WorkDir(d, old)
    }
    pub fn path(&self) -> &Path {
        &self.0
    }
}
impl Drop for WorkDir {
    fn drop(&mut self) {
        let _ = std::env::set_current_dir(&self.1);
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// Reads choices; beyond the end every choice is the simplest one (0).
pub struct Tape<'a> {
    d: &'a [u16],
    i: usize,
    /// Past the end, go on with choices determined by those given.
    pub long: bool,
}
impl<'a> Tape<'a> {
    pub fn new(d: &'a [u16]) -> Self {
        Tape { d, i: 0, long: false }
    }
    pub fn raw(&mut self) -> u16 {
        let r = match self.d.get(self.i) {
            Some(r) => *r,
            None if self.long => {
                // (A multiplicative generator, seeded by the last choices.)
                let mut h = self.i as u64 ^ 0x9e37_79b9_7f4a_7c15;
                for x in self.d.iter().rev().take(4) {
                    h = (h ^ *x as u64).wrapping_mul(0xff51_afd7_ed55_8ccd);
                    h ^= h >> 33
                }
                (h >> 20) as u16
            }
            None => 0,
        };
        self.i += 1;
        r
    }
    /// One case in `den` is to be a big one.
    pub fn big(&mut self, den: usize) -> bool {
        self.long = self.chance(1, den);
        self.long
    }
    /// A choice in `0..n`, monotone in the raw value (for shrinking).
    pub fn below(&mut self, n: usize) -> usize {
        scale(self.raw(), n)
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as usize) as i64
    }
    /// Small integers, simplest 0, then 1, -1, 2, -2, ...
    pub fn small(&mut self, k: usize) -> i64 {
        zigzag(self.below(2 * k + 1))
    }
    /// True with probability `num/den`; the simplest choice is `false`.
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }
    pub fn exhausted(&self) -> bool {
        self.i >= self.d.len()
    }
    /// Weighted choice; weight index 0 is the simplest.
    pub fn weighted(&mut self, ws: &[usize]) -> usize {
        let total: usize = ws.iter().sum();
        let mut x = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= *w;
        }
        0
    }
}
pub fn scale(v: u16, n: usize) -> usize {
    if n == 0 {
        return 0;
    }
    (v as usize * n) >> 16
}
pub fn zigzag(u: usize) -> i64 {
    let h = ((u + 1) / 2) as i64;
    if u % 2 == 1 {
        h
    } else {
        -h
    }
}

/// What a case reports about itself.
#[derive(Default)]
pub struct Cx {
    pub labels: BTreeSet<&'static str>,
    pub nontrivial: bool,
    pub want_render: bool,
    pub render: String,
    pub digest: u64,
}
impl Cx {
    pub fn label(&mut self, l: &'static str) {
        self.labels.insert(l);
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.labels.insert(l);
        }
    }
    pub fn digest<T: Hash>(&mut self, t: &T) {
        let mut h = DefaultHasher::new();
        self.digest.hash(&mut h);
        t.hash(&mut h);
        self.digest = h.finish();
    }
    pub fn show<F: FnOnce() -> String>(&mut self, f: F) {
        if self.want_render {
            let s = f();
            self.render.push_str(&s);
            self.render.push('\n');
        }
    }
}

pub type R = Result<(), String>;

pub struct Prop {
    pub id: &'static str,
    pub a: (usize, usize),
    pub b: (usize, usize),
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&Case, &mut Cx) -> R,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

/// A fixed input that is decided on every run besides the generated
/// ones, because it is listed as a known finding.
pub struct Probe {
    pub id: &'static str,
    pub key: &'static str,
    pub run: fn() -> R,
}

fn run_probe(p: &Probe) -> R {
    let f = p.run;
    std::thread::spawn(move || catch(f).unwrap_or_else(|m| Err(format!("panic: {}", m)))).join().unwrap_or_else(|_| Err("panic".into()))
}

/// What `KNOWN_FINDINGS` says of a probe: `known: property=ID KEY WHAT`.
fn known(verif: &Path, p: &Probe) -> Option<String> {
    let s = std::fs::read_to_string(verif.join("KNOWN_FINDINGS")).unwrap_or_default();
    let head = format!("known: property={} {} ", p.id, p.key);
    s.lines().filter_map(|l| l.strip_prefix(head.as_str())).next().map(|w| w.to_string())
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

pub const STACK: usize = 96 << 20;

thread_local!(static LAST_PANIC: RefCell<String> = RefCell::new(String::new()));

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = format!("{} (at {})", msg.lines().next().unwrap_or(""), at)
            }
        });
    }));
}

/// Runs `f`, returning the panic message if it panics.
pub fn catch<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(t) => Ok(t),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

/// Runs one case on a fresh thread (all engine state is thread-local).
pub fn run_case(p: &Prop, case: &Case, want_render: bool) -> (R, Cx) {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(s, || {
                let mut cx = Cx { want_render, ..Cx::default() };
                let r = match catch(|| (p.run)(case, &mut cx)) {
                    Ok(r) => r,
                    Err(m) => Err(format!("panic: {}", m)),
                };
                (r, cx)
            })
            .expect("spawn")
            .join()
            .unwrap_or_else(|_| (Err("panic while tearing down the case".into()), Cx::default()))
    })
}

// ---------------------------------------------------------------- JSON

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn case_json(c: &Case) -> String {
    format!("\"a\": {:?}, \"b\": {:?}", c.a, c.b)
}

/// Reads the tapes of a replay file.
fn parse_case(s: &str) -> Option<Case> {
    fn nums(s: &str) -> Vec<u16> {
        s.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).filter_map(|x| x.parse().ok()).collect()
    }
    let ia = s.find("\"a\":")? + 4;
    let ea = ia + s[ia..].find(']')?;
    let a = nums(&s[ia..ea]);
    let ib = s.find("\"b\":")? + 4;
    let rest = &s[ib..];
    let open = rest.find('[')?;
    let mut depth = 0;
    let mut end = open;
    for (i, ch) in rest.char_indices().skip_while(|(i, _)| *i < open) {
        match ch {
            '[' => depth += 1,
            ']' => {
                depth -= 1;
                if depth == 0 {
                    end = i;
                    break;
                }
            }
            _ => (),
        }
    }
    let b = nums(&rest[open..end]).chunks(4).filter(|c| c.len() == 4).map(|c| [c[0], c[1], c[2], c[3]]).collect();
    Some(Case { a, b })
}

fn encode(c: &Case) -> Vec<u8> {
    let mut o = Vec::with_capacity(8 + 2 * c.a.len() + 8 * c.b.len());
    o.extend_from_slice(&(c.a.len() as u32).to_le_bytes());
    o.extend_from_slice(&(c.b.len() as u32).to_le_bytes());
    for x in &c.a {
        o.extend_from_slice(&x.to_le_bytes())
    }
    for r in &c.b {
        for x in r {
            o.extend_from_slice(&x.to_le_bytes())
        }
    }
    o
}
fn decode(d: &[u8]) -> Option<Case> {
    let n = |i: usize| Some(u32::from_le_bytes([*d.get(i)?, *d.get(i + 1)?, *d.get(i + 2)?, *d.get(i + 3)?]) as usize);
    let (na, nb) = (n(0)?, n(4)?);
    let w = |k: usize| Some(u16::from_le_bytes([*d.get(8 + 2 * k)?, *d.get(9 + 2 * k)?]));
    let mut c = Case::default();
    for i in 0..na {
        c.a.push(w(i)?)
    }
    for i in 0..nb {
        let k = na + 4 * i;
        c.b.push([w(k)?, w(k + 1)?, w(k + 2)?, w(k + 3)?])
    }
    Some(c)
}

// -------------------------------------------------------------- worker

fn seed_for(seed: u64, id: &str, chunk: u64) -> [u8; 32] {
    let mut out = [0u8; 32];
    for i in 0..4u64 {
        let mut h = DefaultHasher::new();
        (seed, id, chunk, i, "adapton-vh").hash(&mut h);
        out[i as usize * 8..][..8].copy_from_slice(&h.finish().to_le_bytes());
    }
    out
}

pub const CHUNK: u64 = 500;

pub fn worker(p: &Prop, cases: u64, seed: u64, widx: u64, nw: u64, dir: &Path) {
    let cur = std::fs::File::create(dir.join(format!("w{}.cur", widx))).unwrap();
    let mut evals = 0u64;
    let mut digests: HashSet<u64> = HashSet::new();
    let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut failure: Option<(Case, String, u64)> = None;
    let nchunks = (cases + CHUNK - 1) / CHUNK;
    let mut k = widx;
    while k < nchunks && failure.is_none() {
        let n = CHUNK.min(cases - k * CHUNK);
        let cfg = Config {
            cases: n as u32,
            failure_persistence: None,
            max_shrink_iters: 3000,
            ..Config::default()
        };
        let mut runner = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &seed_for(seed, p.id, k)));
        // Every eighth chunk explores programs and histories of up to
        // twice and thrice the size.
        let (ma, mb) = if k % 8 == 7 { (2 * p.a.1, 3 * p.b.1) } else { (p.a.1, p.b.1) };
        let strat = (
            pvec(any::<u16>(), p.a.0..=ma),
            pvec(proptest::array::uniform4(any::<u16>()), p.b.0..=mb),
        );
        let st = RefCell::new((&mut evals, &mut digests, &mut labels, &mut samples, false));
        let res = runner.run(&strat, |(a, b)| {
            let case = Case { a, b };
            let _ = cur.write_all_at(&encode(&case), 0);
            let mut st = st.borrow_mut();
            let counting = !st.4;
            let want = counting && st.3.len() < 3;
            let (r, cx) = run_case(p, &case, want);
            if counting {
                *st.0 += 1;
                for l in &cx.labels {
                    *st.2.entry(l).or_insert(0) += 1
                }
                if cx.nontrivial {
                    let new = st.1.insert(cx.digest);
                    if want && new && cx.render.len() < 6000 {
                        st.3.push(cx.render)
                    }
                }
            }
            match r {
                Ok(()) => Ok(()),
                Err(m) => {
                    st.4 = true;
                    Err(TestCaseError::fail(m))
                }
            }
        });
        match res {
            Ok(()) => (),
            Err(TestError::Fail(m, (a, b))) => failure = Some((Case { a, b }, m.message().to_string(), k)),
            Err(TestError::Abort(m)) => panic!("aborted: {}", m),
        }
        k += nw;
    }
    let mut o = String::new();
    o.push_str(&format!("evals {}\n", evals));
    for (l, n) in &labels {
        o.push_str(&format!("label {} {}\n", n, l));
    }
    for s in &samples {
        o.push_str(&format!("sample {}\n", s.replace('\n', "\u{1}")));
    }
    if let Some((c, m, k)) = failure {
        std::fs::write(dir.join(format!("w{}.fail", widx)), encode(&c)).unwrap();
        o.push_str(&format!("fail {} {}\n", k, m.replace('\n', " ")));
    }
    o.push_str("end\n");
    let mut d = Vec::with_capacity(digests.len() * 8);
    for x in &digests {
        d.extend_from_slice(&x.to_le_bytes())
    }
    std::fs::write(dir.join(format!("w{}.dig", widx)), d).unwrap();
    std::fs::write(dir.join(format!("w{}.out", widx)), o).unwrap();
}

// -------------------------------------------------------------- parent

enum One {
    Pass,
    Fail(String),
    Crash(String),
    Hang,
}

/// Runs one case in a child process, for at most `secs` seconds.
fn run_in_child(p: &Prop, c: &Case, dir: &Path, tag: &str, secs: u64) -> One {
    let f = dir.join(format!("one-{}.bin", tag));
    std::fs::write(&f, encode(c)).unwrap();
    let out = dir.join(format!("one-{}.out", tag));
    let mut ch = Command::new(std::env::current_exe().unwrap())
        .args(["one", p.id, f.to_str().unwrap()])
        .env("VH_SCRATCH", dir)
        .stdout(std::fs::File::create(&out).unwrap())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let t0 = Instant::now();
    loop {
        match ch.try_wait().unwrap() {
            Some(st) => {
                let s = String::from_utf8_lossy(&std::fs::read(&out).unwrap_or_default()).to_string();
                let msg = s.lines().filter_map(|l| l.strip_prefix("FAIL ")).next().unwrap_or("").to_string();
                return match (st.code(), st.signal()) {
                    (Some(0), _) => One::Pass,
                    (Some(3), _) => One::Fail(msg),
                    (_, Some(9)) => One::Hang,
                    (_, Some(sig)) => One::Crash(format!("process died with signal {}", sig)),
                    (Some(x), _) => One::Crash(format!("process exited with {}", x)),
                    _ => One::Hang,
                };
            }
            None => {
                if t0.elapsed() > Duration::from_secs(secs) {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return One::Hang;
                }
                std::thread::sleep(Duration::from_millis(2));
            }
        }
    }
}

pub fn one_from_file(p: &Prop, f: &Path) -> i32 {
    let d = std::fs::read(f).expect("case file");
    let case = decode(&d).expect("case encoding");
    finish_one(p, &case)
}

fn finish_one(p: &Prop, case: &Case) -> i32 {
    let (r, cx) = run_case(p, case, true);
    match r {
        Ok(()) => {
            println!("PASS {}", cx.render);
            0
        }
        Err(m) => {
            println!("FAIL {}\n{}", m.replace('\n', " "), cx.render);
            3
        }
    }
}

pub fn replay(p: &Prop, probes: &[Probe], f: &Path) -> i32 {
    let s = std::fs::read_to_string(f).expect("replay file");
    if let Some(pr) = probes.iter().find(|x| x.id == p.id && s.contains(&format!("\"probe\": {}", js(x.key)))) {
        return match run_probe(pr) {
            Ok(()) => 0,
            Err(m) => {
                println!("{}\nVIOLATION property={} replay={}", m, p.id, f.display());
                1
            }
        };
    }
    let case = parse_case(&s).expect("replay file lacks tapes");
    if finish_one(p, &case) == 0 {
        0
    } else {
        println!("VIOLATION property={} replay={}", p.id, f.display());
        1
    }
}

/// Minimises a case that kills or hangs its process (so proptest cannot).
fn shrink_crash(p: &Prop, c: &Case, dir: &Path, hangs: bool) -> Case {
    let mut best = c.clone();
    let mut budget = if hangs { 40 } else { 250 };
    let mut bad = |c: &Case| -> bool {
        if budget == 0 {
            return false;
        }
        budget -= 1;
        match run_in_child(p, c, dir, "shrink", if hangs { 5 } else { 30 }) {
            One::Crash(_) | One::Fail(_) => !hangs,
            One::Hang => hangs,
            One::Pass => false,
        }
    };
    let mut chunk = best.b.len();
    while chunk > 0 {
        let mut i = 0;
        while i < best.b.len() {
            let mut t = best.clone();
            t.b.drain(i..(i + chunk).min(t.b.len()));
            if bad(&t) {
                best = t
            } else {
                i += chunk
            }
        }
        chunk /= 2;
    }
    let mut n = best.a.len() / 2;
    while n > 0 {
        let mut t = best.clone();
        let keep = t.a.len().saturating_sub(n);
        t.a.truncate(keep.max(p.a.0));
        if t.a.len() < best.a.len() && bad(&t) {
            best = t
        } else {
            n /= 2
        }
    }
    for i in 0..best.a.len() {
        if best.a[i] != 0 {
            let mut t = best.clone();
            t.a[i] = 0;
            if bad(&t) {
                best = t
            }
        }
    }
    best
}

pub fn check(p: &Prop, probes: &[Probe], tier: &str, seed: u64, verif: &Path, scratch: &Path) -> i32 {
    let t0 = Instant::now();
    let mut cases = if tier == "thorough" { p.thorough } else { p.quick };
    if let Ok(s) = std::env::var("VERIF_CASES") {
        if let Ok(n) = s.parse() {
            cases = n
        }
    }
    let nw = std::env::var("VERIF_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8u64);
    let exe = std::env::current_exe().unwrap();
    let mut kids: Vec<_> = (0..nw)
        .map(|w| {
            Some(
                Command::new(&exe)
                    .args(["worker", p.id, &cases.to_string(), &seed.to_string(), &w.to_string(), &nw.to_string(), scratch.to_str().unwrap()])
                    .env("VH_SCRATCH", scratch)
                    .stdout(Stdio::null())
                    .stderr(Stdio::null())
                    .spawn()
                    .unwrap(),
            )
        })
        .collect();
    let limit = Duration::from_secs(if tier == "thorough" { 6 * 3600 } else { 780 });
    let mut crashed: Option<(u64, String)> = None;
    let mut error: Option<String> = None;
    let mut stop = false;
    let mut live = nw;
    let mut looked = Instant::now();
    let mut hung = false;
    while live > 0 {
        for w in 0..nw as usize {
            if let Some(k) = kids[w].as_mut() {
                if let Some(st) = k.try_wait().unwrap() {
                    kids[w] = None;
                    live -= 1;
                    if stop {
                        continue;
                    }
                    if !st.success() {
                        match st.signal() {
                            Some(9) => error = Some(format!("worker {} was killed", w)),
                            Some(s) => crashed = Some((w as u64, format!("signal {}", s))),
                            None => crashed = Some((w as u64, format!("exit {:?}", st.code()))),
                        }
                        stop = true;
                    } else if scratch.join(format!("w{}.fail", w)).exists() {
                        stop = true;
                    }
                }
            }
        }
        if !stop && looked.elapsed() > Duration::from_secs(2) {
            // A case takes milliseconds; one that runs for a minute hangs.
            looked = Instant::now();
            for w in 0..nw as usize {
                if kids[w].is_none() {
                    continue;
                }
                let age = std::fs::metadata(scratch.join(format!("w{}.cur", w))).and_then(|m| m.modified()).ok().and_then(|t| t.elapsed().ok());
                if age.map_or(false, |a| a > Duration::from_secs(60)) {
                    crashed = Some((w as u64, "no end after 60 s".into()));
                    hung = true;
                    stop = true;
                    break;
                }
            }
        }
        if t0.elapsed() > limit {
            error = Some("time limit reached before the fixed work was done".into());
            stop = true;
        }
        if stop {
            for k in kids.iter_mut().flatten() {
                let _ = k.kill();
            }
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    // Merge.
    let mut evals = 0u64;
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut digs: HashSet<u64> = HashSet::new();
    let mut fail: Option<(Case, String)> = None;
    for w in 0..nw {
        let o = match std::fs::read_to_string(scratch.join(format!("w{}.out", w))) {
            Ok(o) => o,
            Err(_) => continue,
        };
        for l in o.lines() {
            if let Some(r) = l.strip_prefix("evals ") {
                evals += r.parse::<u64>().unwrap()
            } else if let Some(r) = l.strip_prefix("label ") {
                let (n, name) = r.split_once(' ').unwrap();
                *labels.entry(name.to_string()).or_insert(0) += n.parse::<u64>().unwrap()
            } else if let Some(r) = l.strip_prefix("sample ") {
                if samples.len() < 6 {
                    samples.push(r.replace('\u{1}', "\n"))
                }
            } else if let Some(r) = l.strip_prefix("fail ") {
                let m = r.split_once(' ').map(|x| x.1).unwrap_or("");
                let c = decode(&std::fs::read(scratch.join(format!("w{}.fail", w))).unwrap()).unwrap();
                if fail.is_none() {
                    fail = Some((c, m.to_string()))
                }
            }
        }
        if let Ok(d) = std::fs::read(scratch.join(format!("w{}.dig", w))) {
            for c in d.chunks(8) {
                digs.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    if fail.is_none() {
        if let Some((w, how)) = crashed {
            let c = std::fs::read(scratch.join(format!("w{}.cur", w))).ok().and_then(|d| decode(&d));
            match c {
                None => error = Some(format!("worker {} died ({}) without a case", w, how)),
                Some(c) => match run_in_child(p, &c, scratch, "confirm", 60) {
                    One::Crash(m) => {
                        let c = shrink_crash(p, &c, scratch, false);
                        fail = Some((c, format!("{} ({})", m, how)))
                    }
                    One::Fail(m) => fail = Some((c, m)),
                    One::Pass => error = Some(format!("worker {} died ({}); its last case passes alone", w, how)),
                    One::Hang if hung => {
                        let c = shrink_crash(p, &c, scratch, true);
                        fail = Some((c, "the case does not terminate (it was stopped after 60 s, twice)".into()))
                    }
                    One::Hang => error = Some(format!("worker {} died ({}); its last case hangs", w, how)),
                },
            }
        }
    }
    let mut code = 0;
    if let Some((c, m)) = &fail {
        // Render through a child: the case may kill its process.
        let rendered = {
            let f = scratch.join("render.bin");
            std::fs::write(&f, encode(c)).unwrap();
            Command::new("timeout")
                .args(["10", exe.to_str().unwrap(), "one", p.id, f.to_str().unwrap()])
                .output()
                .map(|o| String::from_utf8_lossy(&o.stdout).to_string())
                .unwrap_or_default()
        };
        let rd = verif.join("replays");
        let _ = std::fs::create_dir_all(&rd);
        let path: PathBuf = rd.join(format!("{}-seed{}.json", p.id, seed));
        let body = format!(
            "{{\"property\": {}, \"seed\": {}, \"message\": {},\n {},\n \"rendered\": {},\n \"how\": \"./check {} --replay <this file>\"}}\n",
            js(p.id),
            seed,
            js(m),
            case_json(c),
            js(&rendered),
            p.id
        );
        std::fs::write(&path, body).unwrap();
        println!("counterexample: {}", m);
        println!("{}", rendered);
        println!("VIOLATION property={} replay={}", p.id, path.display());
        code = 1;
    } else if let Some(e) = &error {
        eprintln!("error: {}", e);
        code = 2;
    }
    let mut probed = vec![];
    for pr in probes.iter().filter(|x| x.id == p.id) {
        match (run_probe(pr), known(verif, pr)) {
            (Ok(()), _) => probed.push(format!("{}: holds", pr.key)),
            (Err(m), Some(what)) => {
                println!("KNOWN-FINDING: property={} {} ({})", p.id, what, m);
                probed.push(format!("{}: known finding", pr.key));
            }
            (Err(m), None) => {
                let rd = verif.join("replays");
                let _ = std::fs::create_dir_all(&rd);
                let path: PathBuf = rd.join(format!("{}-{}.json", p.id, pr.key));
                let _ = std::fs::write(&path, format!("{{\"property\": {}, \"probe\": {}, \"message\": {}}}\n", js(p.id), js(pr.key), js(&m)));
                println!("counterexample: {}", m);
                println!("VIOLATION property={} replay={}", p.id, path.display());
                probed.push(format!("{}: violated", pr.key));
                code = 1;
            }
        }
    }
    let nontrivial = digs.len();
    if code == 0 && (evals < cases || (nontrivial as u64) * 20 < evals) {
        eprintln!("error: only {} of {} cases ran, {} of them distinct and non-trivial", evals, cases, nontrivial);
        code = 2;
    }
    let mut ev = String::new();
    ev.push_str(&format!(
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n",
        js(p.id),
        js(tier),
        seed
    ));
    ev.push_str(&format!(
        " \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"classes\": {{",
        evals,
        nontrivial,
        js(p.rule)
    ));
    ev.push_str(&labels.iter().map(|(l, n)| format!("{}: {}", js(l), n)).collect::<Vec<_>>().join(", "));
    ev.push_str("},\n  \"samples\": [");
    ev.push_str(&samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(",\n   "));
    ev.push_str("]\n },\n \"probes\": [");
    ev.push_str(&probed.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "));
    ev.push_str("],\n \"assumptions\": [");
    ev.push_str(&p.assumptions.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "));
    ev.push_str(&format!(
        "],\n \"wall_s\": {:.2}, \"violations\": {}\n}}\n",
        t0.elapsed().as_secs_f64(),
        if code == 1 { 1 } else { 0 }
    ));
    let ed = verif.join("evidence");
    let _ = std::fs::create_dir_all(&ed);
    let mut f = std::fs::File::create(ed.join(format!("{}.json", p.id))).unwrap();
    f.write_all(ev.as_bytes()).unwrap();
    if code == 0 {
        println!(
            "{}: held on {} cases ({} distinct non-trivial), {:.1} s",
            p.id,
            evals,
            nontrivial,
            t0.elapsed().as_secs_f64()
        );
    }
    code
}
