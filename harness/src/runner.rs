//! Case runner: a parent process that only watches, and a worker process that executes the real code.
//!
//! Verdicts are three-valued: held (exit 0), violated (exit 1 with a replay file) or inconclusive (exit 2).
use crate::alloc;
use crate::rng::{hash_str, mix, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

extern "C" {
    fn gettid() -> i32;
    fn clock_gettime(clk: i32, ts: *mut [i64; 2]) -> i32;
}

/// CPU time of the calling thread in nanoseconds.
pub fn thread_cpu_ns() -> u64 {
    let mut ts = [0i64; 2];
    unsafe { clock_gettime(3, &mut ts) };
    ts[0] as u64 * 1_000_000_000 + ts[1] as u64
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Debug)]
pub enum Fail {
    /// The property is broken in this execution.
    Violation(String),
    /// The property is broken in exactly the way of the known finding of this signature.
    Known(&'static str, String),
}
pub type Res = Result<(), Fail>;

impl From<String> for Fail {
    fn from(s: String) -> Self {
        Fail::Violation(s)
    }
}

#[macro_export]
macro_rules! fail {
    ($($a:tt)*) => { return Err($crate::runner::Fail::Violation(format!($($a)*))) };
}

#[macro_export]
macro_rules! check {
    ($c:expr, $($a:tt)*) => { if !$c { return Err($crate::runner::Fail::Violation(format!($($a)*))) } };
}

pub struct Kind {
    pub name: &'static str,
    pub quick: usize,
    pub thorough: usize,
    pub cpu_s: u64,
    /// Stack of the thread that runs a case, in bytes; 0 for the large default.
    pub stack: usize,
    pub f: fn(&mut Ctx) -> Res,
}

pub const fn kind(name: &'static str, quick: usize, thorough: usize, f: fn(&mut Ctx) -> Res) -> Kind {
    Kind { name, quick, thorough, cpu_s: 100, stack: 0, f }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub kinds: Vec<Kind>,
}

pub struct Ctx {
    pub rng: Rng,
    pub idx: usize,
    pub tier: Tier,
    pub counters: BTreeMap<String, u64>,
    pub fps: HashSet<u64>,
    pub evals: u64,
    pub sample: Option<String>,
    pub note: String,
    want_sample: bool,
}

impl Ctx {
    pub fn count(&mut self, what: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(what) {
            *c += n;
        } else {
            self.counters.insert(what.to_string(), n);
        }
    }
    pub fn max(&mut self, what: &str, n: u64) {
        let key = format!("max {what}");
        let c = self.counters.entry(key).or_insert(0);
        *c = (*c).max(n);
    }
    /// One execution of the code under test whose outcome was judged.
    pub fn eval(&mut self, n: u64) {
        self.evals += n;
    }
    /// A non-trivial case, by the rule of the property, with its fingerprint.
    pub fn distinct(&mut self, fp: u64) {
        self.fps.insert(fp);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample && self.sample.is_none() {
            let mut s = f();
            if s.len() > 500 {
                let mut n = 500;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push_str("...");
            }
            self.sample = Some(s);
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let _ = LAST_PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = format!("panic at {loc}: {msg}");
            }
        });
    }));
}

/// Runs code that must not panic; the panic message becomes the error.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

fn case_seed(seed: u64, prop: &str, kind: &str, idx: usize) -> u64 {
    mix(mix(mix(seed) ^ hash_str(prop)) ^ hash_str(kind)) ^ mix(idx as u64)
}

fn run_case(prop: &Prop, k: &Kind, idx: usize, seed: u64, tier: Tier) -> (Ctx, Res) {
    let mut ctx = Ctx {
        rng: Rng::new(case_seed(seed, prop.id, k.name, idx)),
        idx,
        tier,
        counters: BTreeMap::new(),
        fps: HashSet::new(),
        evals: 0,
        sample: None,
        note: String::new(),
        want_sample: idx < 2,
    };
    alloc::set_budget(None, Some(3 << 30));
    let r = match guarded(|| (k.f)(&mut ctx)) {
        Ok(r) => r,
        Err(p) => Err(Fail::Violation(p)),
    };
    alloc::set_budget(None, None);
    let r = match r {
        Err(Fail::Violation(m)) if !ctx.note.is_empty() => Err(Fail::Violation(format!("{m}\n  case: {}", ctx.note))),
        r => r,
    };
    (ctx, r)
}

#[derive(Default)]
struct Totals {
    counters: BTreeMap<String, u64>,
    fps: HashSet<u64>,
    evals: u64,
    kinds: BTreeMap<String, u64>,
    samples: BTreeMap<String, Vec<String>>,
    known: BTreeMap<String, (u64, String)>,
    violations: Vec<(String, usize, String)>,
}

impl Totals {
    fn merge(&mut self, kind: &str, idx: usize, ctx: Ctx, r: Res) {
        *self.kinds.entry(kind.to_string()).or_insert(0) += 1;
        self.evals += ctx.evals;
        self.fps.extend(ctx.fps);
        for (k, v) in ctx.counters {
            let c = self.counters.entry(k.clone()).or_insert(0);
            if k.starts_with("max ") {
                *c = (*c).max(v);
            } else {
                *c += v;
            }
        }
        if let Some(s) = ctx.sample {
            self.samples.entry(kind.to_string()).or_default().push(s);
        }
        match r {
            Ok(()) => {}
            Err(Fail::Known(sig, m)) => {
                let e = self.known.entry(sig.to_string()).or_insert((0, m));
                e.0 += 1;
            }
            Err(Fail::Violation(m)) => self.violations.push((kind.to_string(), idx, m)),
        }
    }
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c);
        }
    }
    o
}
pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

const THREADS: usize = 8;
const SOFT_WALL: [u64; 2] = [420, 7200];
const HARD_WALL: [u64; 2] = [780, 9000];
/// A worker that holds more than this takes no further cases; a new worker goes on. Memory that the code under test
/// never frees (a known finding of C23) and arenas of the allocator would otherwise add up over thousands of cases.
const RSS_LIMIT: u64 = 8 << 30;

fn resident() -> u64 {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) * 4096
}

/// The worker process: runs every case of the property, or only one.
pub fn worker(prop: &Prop, seed: u64, tier: Tier, dir: &Path, only: Option<(&str, usize)>) -> i32 {
    install_hook();
    let started = Instant::now();
    let var = |n: &str| std::env::var(n).ok().and_then(|v| v.parse::<u64>().ok()).unwrap_or(0);
    let (first, elapsed) = (var("CCMON_FIRST") as usize, var("CCMON_ELAPSED"));
    let tix = tier as usize;
    let mut list: Vec<(usize, usize)> = Vec::new();
    for (ki, k) in prop.kinds.iter().enumerate() {
        let n = if tier == Tier::Quick { (k.quick * crate::props::quick_scale(prop.id)).min(k.thorough) } else { k.thorough };
        match only {
            Some((name, idx)) if name == k.name => list.push((ki, idx)),
            Some(_) => {}
            None => list.extend((0..n).map(|i| (ki, i))),
        }
    }
    let next = AtomicUsize::new(first);
    let stop = AtomicBool::new(false);
    let done = AtomicUsize::new(0);
    let truncated = AtomicBool::new(false);
    let totals = Mutex::new(Totals::default());
    let slots = std::fs::File::create(dir.join("slots")).expect("slots");
    let nthreads = THREADS.min(list.len().saturating_sub(first)).max(1);
    let tids: Vec<AtomicU64> = (0..nthreads).map(|_| AtomicU64::new(0)).collect();
    let starts: Vec<AtomicU64> = (0..nthreads).map(|_| AtomicU64::new(u64::MAX)).collect();
    let budget: Vec<AtomicU64> = (0..nthreads).map(|_| AtomicU64::new(0)).collect();

    std::thread::scope(|s| {
        for t in 0..nthreads {
            let (next, stop, done, totals, list, slots, tids, starts, budget, truncated) =
                (&next, &stop, &done, &totals, &list, &slots, &tids, &starts, &budget, &truncated);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    let mut local = Totals::default();
                    loop {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        if elapsed + started.elapsed().as_secs() > SOFT_WALL[tix] {
                            truncated.store(true, Ordering::Relaxed);
                            break;
                        }
                        if !local.kinds.is_empty() && resident() > RSS_LIMIT {
                            break;
                        }
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= list.len() {
                            break;
                        }
                        let (ki, idx) = list[i];
                        let k = &prop.kinds[ki];
                        let mut buf = [0u8; 24];
                        buf[0] = 1;
                        buf[8..16].copy_from_slice(&(ki as u64).to_le_bytes());
                        buf[16..24].copy_from_slice(&(idx as u64).to_le_bytes());
                        let _ = slots.write_at(&buf, t as u64 * 24);
                        budget[t].store(k.cpu_s, Ordering::SeqCst);
                        let t0 = Instant::now();
                        let go = || {
                            tids[t].store(unsafe { gettid() } as u64, Ordering::SeqCst);
                            starts[t].store(thread_cpu_ns(), Ordering::SeqCst);
                            let r = run_case(prop, k, idx, seed, tier);
                            starts[t].store(u64::MAX, Ordering::SeqCst);
                            r
                        };
                        let (ctx, r) = if k.stack == 0 {
                            go()
                        } else {
                            std::thread::scope(|s2| {
                                std::thread::Builder::new().stack_size(k.stack).spawn_scoped(s2, go).expect("spawn").join().expect("join")
                            })
                        };
                        if t0.elapsed().as_secs_f64() > 5.0 && std::env::var("CCMON_SLOW").is_ok() {
                            eprintln!("slow case {} {} {:.1}s", k.name, idx, t0.elapsed().as_secs_f64());
                        }
                        if matches!(r, Err(Fail::Violation(_))) {
                            stop.store(true, Ordering::Relaxed);
                        }
                        local.merge(k.name, idx, ctx, r);
                    }
                    let _ = slots.write_at(&[0u8; 24], t as u64 * 24);
                    let mut g = totals.lock().unwrap();
                    for (k, v) in local.counters {
                        let c = g.counters.entry(k.clone()).or_insert(0);
                        if k.starts_with("max ") {
                            *c = (*c).max(v);
                        } else {
                            *c += v;
                        }
                    }
                    g.fps.extend(local.fps);
                    g.evals += local.evals;
                    for (k, v) in local.kinds {
                        *g.kinds.entry(k).or_insert(0) += v;
                    }
                    for (k, v) in local.samples {
                        g.samples.entry(k).or_default().extend(v);
                    }
                    for (k, (n, m)) in local.known {
                        let e = g.known.entry(k).or_insert((0, m));
                        e.0 += n;
                    }
                    g.violations.extend(local.violations);
                    done.fetch_add(1, Ordering::SeqCst);
                })
                .expect("spawn");
        }
        // Watchdog on consumed CPU time, not on the wall clock: a loaded machine cannot make it fire.
        while done.load(Ordering::SeqCst) < nthreads {
            std::thread::sleep(Duration::from_millis(20));
            for t in 0..nthreads {
                let s0 = starts[t].load(Ordering::SeqCst);
                if s0 == u64::MAX {
                    continue;
                }
                let tid = tids[t].load(Ordering::SeqCst);
                let cpu = std::fs::read_to_string(format!("/proc/self/task/{tid}/schedstat"))
                    .ok()
                    .and_then(|s| s.split_whitespace().next().and_then(|x| x.parse::<u64>().ok()))
                    .unwrap_or(0);
                if starts[t].load(Ordering::SeqCst) == s0
                    && cpu.saturating_sub(s0) > budget[t].load(Ordering::SeqCst) * 1_000_000_000
                {
                    alloc::exit_now(alloc::EXIT_CPU_BUDGET);
                }
            }
        }
    });

    let g = totals.into_inner().unwrap();
    let mut o = String::new();
    let _ = writeln!(o, "evals\t{}", g.evals);
    let cut = truncated.load(Ordering::Relaxed) || stop.load(Ordering::Relaxed);
    let _ = writeln!(o, "truncated\t{}", truncated.load(Ordering::Relaxed) as u8);
    let _ = writeln!(o, "next\t{}", if cut { list.len() } else { next.load(Ordering::Relaxed).min(list.len()) });
    let _ = writeln!(o, "cases\t{}", list.len());
    let mut fps: Vec<u8> = Vec::with_capacity(g.fps.len() * 8);
    for f in &g.fps {
        fps.extend(f.to_le_bytes());
    }
    std::fs::write(dir.join("fps"), fps).expect("fingerprints");
    for (k, v) in &g.kinds {
        let _ = writeln!(o, "kind\t{}\t{}", k, v);
    }
    for (k, v) in &g.counters {
        let _ = writeln!(o, "counter\t{}\t{}", esc(k), v);
    }
    for (k, v) in &g.samples {
        for s in v.iter().take(2) {
            let _ = writeln!(o, "sample\t{}", esc(&format!("{k}: {s}")));
        }
    }
    for (k, (n, m)) in &g.known {
        let _ = writeln!(o, "known\t{}\t{}\t{}", k, n, esc(m));
    }
    for (k, i, m) in &g.violations {
        let _ = writeln!(o, "violation\t{}\t{}\t{}", k, i, esc(m));
    }
    std::fs::write(dir.join("result.tmp"), o).expect("result");
    std::fs::rename(dir.join("result.tmp"), dir.join("result")).expect("result");
    0
}

fn spawn_worker(prop: &str, seed: u64, tier: Tier, dir: &Path, only: Option<(&str, usize)>, wall: u64, first: usize, elapsed: u64) -> Result<i32, String> {
    let _ = std::fs::remove_file(dir.join("result"));
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut c = Command::new(exe);
    c.arg("worker").arg(prop).arg(seed.to_string()).arg(if tier == Tier::Quick { "quick" } else { "thorough" }).arg(dir);
    c.env("CCMON_FIRST", first.to_string()).env("CCMON_ELAPSED", elapsed.to_string());
    if let Some((k, i)) = only {
        c.arg(k).arg(i.to_string());
    }
    let mut child = c.spawn().map_err(|e| e.to_string())?;
    let t0 = Instant::now();
    loop {
        match child.try_wait().map_err(|e| e.to_string())? {
            Some(st) => {
                return Ok(match (st.code(), st.signal()) {
                    (Some(c), _) => c,
                    (None, Some(s)) => -s,
                    _ => -1,
                })
            }
            None => {
                if t0.elapsed().as_secs() > wall {
                    let _ = child.kill();
                    let _ = child.wait();
                    return Err(format!("worker still running after {wall} s of wall time"));
                }
                std::thread::sleep(Duration::from_millis(10));
            }
        }
    }
}

fn describe(code: i32) -> Option<String> {
    match code {
        alloc::EXIT_ALLOC_BUDGET => Some("the case exceeded its heap budget (a generous multiple of what it needs)".into()),
        alloc::EXIT_CPU_BUDGET => Some("the case exceeded its CPU-time budget (a generous multiple of what it needs)".into()),
        -11 | -6 | -7 | -4 | -8 => Some(format!("the case crashed the process with signal {} (stack overflow, abort or trap)", -code)),
        _ => None,
    }
}

/// Known findings of this property: signature -> text.
fn known_findings(root: &Path, prop: &str) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    let text = std::fs::read_to_string(root.join("known_findings.txt")).unwrap_or_default();
    for l in text.lines() {
        if let Some(rest) = l.strip_prefix("known: ") {
            let mut it = rest.splitn(3, ' ');
            let (p, s, t) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
            if p.strip_prefix("property=") == Some(prop) {
                if let Some(sig) = s.strip_prefix("signature=") {
                    m.insert(sig.to_string(), t.to_string());
                }
            }
        }
    }
    m
}

/// The parent process of one check.
pub fn parent(prop: &Prop, seed: u64, tier: Tier, root: &Path) -> i32 {
    let started = Instant::now();
    let tname = if tier == Tier::Quick { "quick" } else { "thorough" };
    let dir: PathBuf = root.join("harness/target/run").join(format!("{}-{}-{}", prop.id, tname, std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let cleanup = |d: &Path| {
        for f in ["slots", "result", "result.tmp", "fps"] {
            let _ = std::fs::remove_file(d.join(f));
        }
        let _ = std::fs::remove_dir(d);
    };
    let hard = HARD_WALL[tier as usize];
    let mut evals = 0u64;
    let mut fps: HashSet<u64> = HashSet::new();
    let mut truncated = false;
    let mut kinds: BTreeMap<String, u64> = BTreeMap::new();
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = Vec::new();
    let mut known: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let mut violations: Vec<(String, usize, String)> = Vec::new();
    let mut workers = 0u64;
    let mut first = 0;
    // One worker after the other, until all cases ran.
    let code = loop {
        let elapsed = started.elapsed().as_secs();
        let code = match spawn_worker(prop.id, seed, tier, &dir, None, hard.saturating_sub(elapsed), first, elapsed) {
            Ok(c) => c,
            Err(e) => {
                println!("INCONCLUSIVE property={} {}", prop.id, e);
                cleanup(&dir);
                return 2;
            }
        };
        if code != 0 {
            break code;
        }
        workers += 1;
        let text = std::fs::read_to_string(dir.join("result")).unwrap_or_default();
        let (mut next, mut cases) = (0, 0);
        for l in text.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "evals" => evals += f[1].parse().unwrap_or(0),
                "next" => next = f[1].parse().unwrap_or(0),
                "cases" => cases = f[1].parse().unwrap_or(0),
                "truncated" => truncated |= f[1] == "1",
                "kind" => *kinds.entry(f[1].to_string()).or_insert(0) += f[2].parse::<u64>().unwrap_or(0),
                "counter" => {
                    let (k, v) = (unesc(f[1]), f[2].parse::<u64>().unwrap_or(0));
                    let c = counters.entry(k.clone()).or_insert(0);
                    *c = if k.starts_with("max ") { (*c).max(v) } else { *c + v };
                }
                "sample" => samples.push(unesc(f[1])),
                "known" => {
                    let e = known.entry(f[1].to_string()).or_insert((0, unesc(f[3])));
                    e.0 += f[2].parse::<u64>().unwrap_or(0);
                }
                "violation" => violations.push((f[1].to_string(), f[2].parse().unwrap_or(0), unesc(f[3]))),
                _ => {}
            }
        }
        for c in std::fs::read(dir.join("fps")).unwrap_or_default().chunks_exact(8) {
            fps.insert(u64::from_le_bytes(c.try_into().unwrap()));
        }
        if next >= cases || next <= first || !violations.is_empty() {
            break 0;
        }
        first = next;
    };
    let distinct = fps.len();
    counters.insert("worker processes".into(), workers);
    if code == 0 {
        if evals == 0 && violations.is_empty() {
            println!("INCONCLUSIVE property={} nothing was observed", prop.id);
            cleanup(&dir);
            return 2;
        }
    } else {
        // The worker died. Re-run every case that was in flight on its own; only a reproduced death is a violation.
        let raw = std::fs::read(dir.join("slots")).unwrap_or_default();
        for ch in raw.chunks(24) {
            if ch.len() == 24 && ch[0] == 1 {
                let ki = u64::from_le_bytes(ch[8..16].try_into().unwrap()) as usize;
                let idx = u64::from_le_bytes(ch[16..24].try_into().unwrap()) as usize;
                let name = prop.kinds[ki].name;
                match spawn_worker(prop.id, seed, tier, &dir, Some((name, idx)), 300, 0, 0) {
                    Ok(c) => {
                        if let Some(m) = describe(c) {
                            violations.push((name.to_string(), idx, m));
                            break;
                        }
                        let text = std::fs::read_to_string(dir.join("result")).unwrap_or_default();
                        for l in text.lines() {
                            let f: Vec<&str> = l.split('\t').collect();
                            if f[0] == "violation" {
                                violations.push((f[1].to_string(), f[2].parse().unwrap_or(0), unesc(f[3])));
                            }
                        }
                        if !violations.is_empty() {
                            break;
                        }
                    }
                    Err(_) => {}
                }
            }
        }
        if violations.is_empty() {
            println!("INCONCLUSIVE property={} worker ended with {} and no single case reproduces it", prop.id, code);
            cleanup(&dir);
            return 2;
        }
    }
    cleanup(&dir);

    let listed = known_findings(root, prop.id);
    for (sig, (n, m)) in &known {
        if let Some(t) = listed.get(sig) {
            println!("KNOWN-FINDING: property={} {} (signature {}, observed {} times)", prop.id, t, sig, n);
        } else {
            violations.push((format!("signature {sig}"), 0, m.clone()));
        }
    }
    violations.sort_by_key(|v| v.1);
    let wall = started.elapsed().as_secs_f64();

    // evidence
    let ev = root.join("evidence");
    let _ = std::fs::create_dir_all(&ev);
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n",
        prop.id,
        tname,
        seed,
        evals,
        distinct,
        json_str(prop.rule),
        samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", ")
    );
    let obj = |m: &BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", ");
    let _ = write!(o, "  \"cases_per_kind\": {{{}}},\n  \"observed\": {{{}}},\n  \"truncated_by_wall_clock\": {},\n", obj(&kinds), obj(&counters), truncated);
    let kn: BTreeMap<String, u64> = known.iter().map(|(k, v)| (k.clone(), v.0)).collect();
    let _ = write!(o, "  \"known_findings_observed\": {{{}}}\n }},\n", obj(&kn));
    let _ = write!(
        o,
        " \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        prop.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
        wall,
        violations.len()
    );
    std::fs::write(ev.join(format!("{}.json", prop.id)), o).expect("evidence");

    println!(
        "{} {} seed={}: {} executions judged, {} distinct non-trivial, {:.1} s{}",
        prop.id,
        tname,
        seed,
        evals,
        distinct,
        wall,
        if truncated { " (truncated by the wall clock)" } else { "" }
    );
    if let Some((k, i, m)) = violations.first() {
        let rp = ev.join(format!("{}.replay", prop.id));
        let mut f = std::fs::File::create(&rp).expect("replay");
        let _ = writeln!(f, "property\t{}\nseed\t{}\ntier\t{}\nkind\t{}\nidx\t{}\n\n{}", prop.id, seed, tname, k, i, m);
        println!("{}/{} case {}: {}", prop.id, k, i, m.chars().take(3000).collect::<String>());
        println!("VIOLATION property={} replay={}", prop.id, rp.display());
        return 1;
    }
    0
}
