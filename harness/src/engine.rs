//! Choice-tape property-based testing engine.
//!
//! Every generated case is a pure function of a tape of integers. Random
//! generation records the tape; shrinking, replay and coverage-guided mutation
//! edit it. Workers are separate processes so that a stack overflow or a runaway
//! loop in the code under test is observed, confirmed and minimised like any
//! other failure.
use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::{Cell, RefCell},
    collections::{BTreeMap, HashSet},
    fmt::Write as _,
    fs,
    os::unix::fs::FileExt,
    os::unix::process::ExitStatusExt,
    panic::{catch_unwind, AssertUnwindSafe},
    path::{Path, PathBuf},
    process::{Command, Stdio},
    sync::atomic::{AtomicU32, AtomicU64, AtomicU8, AtomicUsize, Ordering::Relaxed},
    time::Instant,
};

// ---------------------------------------------------------------- coverage

const MAXG: usize = 1 << 15;
static NGUARD: AtomicU32 = AtomicU32::new(0);
static COUNTS: [AtomicU8; MAXG] = [const { AtomicU8::new(0) }; MAXG];
static FUEL: AtomicU64 = AtomicU64::new(u64::MAX);
static FUEL_GIVEN: AtomicU64 = AtomicU64::new(u64::MAX);
static LIVE: AtomicUsize = AtomicUsize::new(0);
/// All bytes ever requested.
static REQUESTED: AtomicU64 = AtomicU64::new(0);
/// Edges of the instrumented code a single case may execute.
pub const FUEL_PER_CASE: u64 = 40_000_000;
const MEM_LIMIT: usize = 2 << 30;
const EXIT_RUNAWAY: i32 = 86;

extern "C" {
    fn _exit(code: i32) -> !;
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut s: *mut u32, e: *mut u32) {
    while s < e {
        if *s == 0 {
            *s = NGUARD.fetch_add(1, Relaxed) + 1;
        }
        s = s.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let i = (*g as usize) & (MAXG - 1);
    let c = &COUNTS[i];
    let v = c.load(Relaxed);
    if v != 255 {
        c.store(v + 1, Relaxed);
    }
    let f = FUEL.load(Relaxed);
    if f == 0 {
        _exit(EXIT_RUNAWAY);
    }
    FUEL.store(f - 1, Relaxed);
}

pub fn fuel_used() -> u64 {
    FUEL_GIVEN.load(Relaxed).saturating_sub(FUEL.load(Relaxed))
}

pub fn fuel_limit(budget: u64) {
    FUEL.store(budget, Relaxed);
    FUEL_GIVEN.store(budget, Relaxed);
}

/// The bytes requested from the allocator so far.
pub fn requested() -> u64 {
    REQUESTED.load(Relaxed)
}

/// The CPU time of this thread in microseconds.
pub fn cpu_time() -> u64 {
    extern "C" {
        fn clock_gettime(clock: i32, t: *mut [i64; 2]) -> i32;
    }
    let mut t = [0i64; 2];
    // CLOCK_THREAD_CPUTIME_ID
    unsafe { clock_gettime(3, &mut t) };
    (t[0] * 1_000_000 + t[1] / 1000) as u64
}

/// Cases with large parts may take longer.
pub fn fuel_more(more: u64) {
    FUEL.store(FUEL.load(Relaxed).saturating_add(more), Relaxed);
    FUEL_GIVEN.store(FUEL_GIVEN.load(Relaxed).saturating_add(more), Relaxed);
}

struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        REQUESTED.fetch_add(l.size() as u64, Relaxed);
        if LIVE.fetch_add(l.size(), Relaxed) > MEM_LIMIT {
            _exit(EXIT_RUNAWAY);
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        REQUESTED.fetch_add(n as u64, Relaxed);
        LIVE.fetch_sub(l.size(), Relaxed);
        if LIVE.fetch_add(n, Relaxed) > MEM_LIMIT {
            _exit(EXIT_RUNAWAY);
        }
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;

// ---------------------------------------------------------------- source

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Self {
        Rng(s ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            self.next()
        } else {
            self.next() % n
        }
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    Rng(a.rotate_left(17) ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93)).next()
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3);
    }
    mix(h, s.len() as u64)
}

/// The source of choices. Choice 0 is always the simplest one.
pub struct Src {
    tape: Vec<u64>,
    idx: usize,
    rng: Option<Rng>,
    pub rec: Vec<u64>,
    /// Sizes beyond the usual ones may occur.
    large: Option<bool>,
}

const MAX_TAPE: usize = 12_000;

impl Src {
    pub fn new(tape: Vec<u64>, seed: Option<u64>) -> Self {
        Src { tape, idx: 0, rng: seed.map(Rng::new), rec: vec![], large: None }
    }
    /// A number in `0..n` (any u64 for n = 0).
    pub fn below(&mut self, n: u64) -> u64 {
        if self.rec.len() >= MAX_TAPE {
            return 0;
        }
        let v = if self.idx < self.tape.len() {
            let t = self.tape[self.idx];
            if n == 0 {
                t
            } else {
                t % n
            }
        } else if let Some(r) = &mut self.rng {
            r.below(n)
        } else {
            0
        };
        self.idx += 1;
        self.rec.push(v);
        v
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below((b - a + 1) as u64) as usize
    }
    pub fn u64(&mut self) -> u64 {
        self.below(0)
    }
    /// True with probability num/den; the simplest choice is false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.usize(v.len());
        &v[i]
    }
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut x = self.below(total);
        for (i, w) in w.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        0
    }
    /// A length in 0..=max, small lengths being likelier.
    pub fn len(&mut self, max: usize) -> usize {
        let m = self.range(0, max);
        if max > 3 && self.chance(1, 2) {
            m.min(3)
        } else {
            m
        }
    }
    /// The number of entries of a collection and the depth below it: now and
    /// then many entries, which are shallow then.
    pub fn wide(&mut self, max: usize, depth: usize) -> (usize, usize) {
        if self.chance(1, 40) {
            let n = self.range(7, 26);
            (self.big(n, 120), 0)
        } else {
            (self.len(max), depth)
        }
    }
    /// A size that is `small` almost always, and up to `max` now and then:
    /// some cases have large parts, the others do not even draw for them.
    pub fn big(&mut self, small: usize, max: usize) -> usize {
        let large = match self.large {
            Some(l) => l,
            None => {
                let l = self.chance(1, 25);
                self.large = Some(l);
                if l {
                    fuel_more(9 * FUEL_PER_CASE);
                }
                l
            }
        };
        if !large || !self.chance(1, 12) {
            return small;
        }
        let n = match self.weighted(&[4, 3, 2, 1]) {
            0 => self.range(9, 40),
            1 => self.range(41, 140),
            2 => self.range(141, 600),
            _ => self.range(601, 3000),
        };
        if n > max {
            self.range(small.min(max), max)
        } else {
            n
        }
    }
    /// Repeats the text up to a large size now and then.
    pub fn stretch(&mut self, s: &mut String, max: usize) {
        let n = self.big(0, max);
        let unit = s.clone();
        while !unit.is_empty() && s.len() < n {
            s.push_str(&unit);
        }
    }
}

#[derive(Default)]
pub struct Ctx {
    pub labels: Vec<&'static str>,
    pub nontrivial: Option<u64>,
    pub discarded: bool,
    pub capture: bool,
    pub desc: String,
}

impl Ctx {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
    /// Mark the case as non-trivial; `key` identifies it for distinctness.
    pub fn nontrivial(&mut self, key: u64) {
        self.nontrivial = Some(key);
    }
    pub fn input(&mut self, f: impl FnOnce() -> String) {
        if self.capture {
            let s = f();
            self.desc.push_str(&s);
            self.desc.push('\n');
        }
    }
}

pub type CaseFn = fn(&mut Src, &mut Ctx) -> Result<(), String>;

pub struct Target {
    pub name: &'static str,
    pub f: CaseFn,
    /// Cases in the quick tier, over all workers.
    pub quick: u64,
    /// Cases in the thorough tier, over all workers.
    pub thorough: u64,
    /// Percentage of cases produced by coverage-guided tape mutation.
    pub guided: u64,
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub targets: Vec<Target>,
}

// ---------------------------------------------------------------- one case

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = i
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

/// Call the code under test where a panic is an expected outcome.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (m, l) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            Err(format!("panic: {m} at {l}"))
        }
    }
}

pub enum Outcome {
    Pass,
    Discard,
    Fail(String),
    Harness(String),
}

pub fn run_case(f: CaseFn, tape: Vec<u64>, seed: Option<u64>, capture: bool) -> (Outcome, Ctx, Vec<u64>) {
    let mut src = Src::new(tape, seed);
    let mut ctx = Ctx { capture, ..Default::default() };
    fuel_limit(FUEL_PER_CASE);
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut src, &mut ctx)));
    let out = match r {
        Ok(Ok(())) if ctx.discarded => Outcome::Discard,
        Ok(Ok(())) => Outcome::Pass,
        Ok(Err(e)) => Outcome::Fail(e),
        Err(_) => {
            let (m, l) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            // Files of this crate have relative paths; a panic raised there is a
            // fault of the harness, not of the code under test.
            if l.starts_with("src/") {
                Outcome::Harness(format!("panic in the harness: {m} at {l}"))
            } else {
                Outcome::Fail(format!("panic: {m} at {l}"))
            }
        }
    };
    (out, ctx, src.rec)
}

fn shortlex(a: &[u64], b: &[u64]) -> bool {
    (a.len(), a) < (b.len(), b)
}

/// Minimise a failing tape; `fails` returns the normalised tape when it fails.
pub fn shrink(start: Vec<u64>, budget: usize, mut fails: impl FnMut(&[u64]) -> Option<Vec<u64>>) -> Vec<u64> {
    let mut best = start;
    let mut left = budget;
    macro_rules! attempt {
        ($cand:expr) => {{
            let c: Vec<u64> = $cand;
            if left == 0 || !shortlex(&c, &best) {
                false
            } else {
                left -= 1;
                match fails(&c) {
                    Some(t) if shortlex(&t, &best) => {
                        best = t;
                        true
                    }
                    Some(_) if shortlex(&c, &best) => {
                        best = c;
                        true
                    }
                    _ => false,
                }
            }
        }};
    }
    loop {
        let before = best.clone();
        // Delete chunks.
        let mut k = best.len() / 2;
        while k >= 1 {
            let mut i = best.len().saturating_sub(k);
            loop {
                if left == 0 {
                    return best;
                }
                let mut c = best.clone();
                if i + k <= c.len() {
                    c.drain(i..i + k);
                    if !attempt!(c) && i > 0 && k <= 8 {
                        // Also lower a preceding length choice.
                        let mut c = best.clone();
                        if i + k <= c.len() && c[i - 1] > 0 {
                            c[i - 1] -= 1;
                            c.drain(i..i + k);
                            attempt!(c);
                        }
                    }
                }
                if i == 0 {
                    break;
                }
                i = i.saturating_sub(k.max(1));
            }
            k = if k > 8 { k / 2 } else { k - 1 };
        }
        // Zero chunks, then minimise single values.
        for k in [8usize, 4, 2] {
            let mut i = 0;
            while i < best.len() {
                let mut c = best.clone();
                let e = (i + k).min(c.len());
                if c[i..e].iter().any(|v| *v != 0) {
                    c[i..e].iter_mut().for_each(|v| *v = 0);
                    attempt!(c);
                }
                i += k;
            }
        }
        let mut i = 0;
        while i < best.len() {
            if best[i] > 0 {
                let mut c = best.clone();
                c[i] = 0;
                if !attempt!(c) {
                    let (mut lo, mut hi) = (0, best[i]);
                    while lo + 1 < hi {
                        if left == 0 {
                            return best;
                        }
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.clone();
                        if i >= c.len() {
                            break;
                        }
                        c[i] = mid;
                        if attempt!(c) {
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before || left == 0 {
            return best;
        }
    }
}

// ---------------------------------------------------------------- worker

fn bucket(v: u8) -> u8 {
    match v {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 4,
        4..=7 => 8,
        8..=15 => 16,
        16..=31 => 32,
        32..=127 => 64,
        _ => 128,
    }
}

fn mutate(r: &mut Rng, corpus: &[Vec<u64>]) -> Vec<u64> {
    let mut t = corpus[r.below(corpus.len() as u64) as usize].clone();
    let n = 1 + r.below(4);
    for _ in 0..n {
        if t.is_empty() {
            break;
        }
        let i = r.below(t.len() as u64) as usize;
        match r.below(7) {
            0 => t[i] = r.below(8),
            1 => t[i] = r.below(256),
            2 => t[i] = t[i].wrapping_add(1),
            3 => {
                let k = 1 + r.below(8) as usize;
                let e = (i + k).min(t.len());
                t.drain(i..e);
            }
            4 => {
                let k = 1 + r.below(8) as usize;
                let e = (i + k).min(t.len());
                let blk: Vec<u64> = t[i..e].to_vec();
                let at = r.below(t.len() as u64 + 1) as usize;
                t.splice(at..at, blk);
            }
            5 => {
                let o = &corpus[r.below(corpus.len() as u64) as usize];
                if !o.is_empty() {
                    let j = r.below(o.len() as u64) as usize;
                    let k = 1 + r.below(24) as usize;
                    let e = (j + k).min(o.len());
                    let at = r.below(t.len() as u64 + 1) as usize;
                    t.splice(at..at, o[j..e].iter().copied());
                }
            }
            _ => {
                t.truncate(i);
            }
        }
        if t.len() > 2000 {
            t.truncate(2000);
        }
    }
    t
}

fn tape_str(t: &[u64]) -> String {
    t.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(",")
}

fn parse_tape(s: &str) -> Vec<u64> {
    s.split(',').filter_map(|v| v.trim().parse().ok()).collect()
}

fn b64(s: &str) -> String {
    let mut o = String::new();
    for b in s.bytes() {
        write!(o, "{b:02x}").unwrap();
    }
    o
}
fn unb64(s: &str) -> String {
    let b: Vec<u8> = (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(b'?'))
        .collect();
    String::from_utf8_lossy(&b).into()
}

pub fn worker(p: &Property, shard: u64, shards: u64, seed: u64, thorough: bool, dir: &Path) -> i32 {
    install_hook();
    let status = fs::File::create(dir.join(format!("status.{shard}"))).expect("status file");
    let mut out = String::new();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut code = 0;
    let scale: f64 = std::env::var("VH_SCALE").ok().and_then(|v| v.parse().ok()).unwrap_or(1.0);
    for (ti, t) in p.targets.iter().enumerate() {
        let total = if thorough { t.thorough } else { t.quick };
        let total = ((total as f64) * scale) as u64;
        // For development: one target alone.
        let total = if std::env::var("VH_ONLY").is_ok_and(|n| n != t.name) { 0 } else { total };
        let (mut evals, mut discards, mut nontriv, mut maxfuel) = (0u64, 0u64, 0u64, 0u64);
        let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
        let mut samples: Vec<String> = vec![];
        let mut corpus: Vec<Vec<u64>> = vec![];
        let mut virgin = vec![0u8; MAXG];
        let ng = (NGUARD.load(Relaxed) as usize + 1).min(MAXG);
        let base = mix(mix(seed, hash_str(p.id)), hash_str(t.name));
        let mut i = shard;
        while i < total {
            let cs = mix(base, i);
            let mut r = Rng::new(cs);
            let tape = if t.guided > 0 && !corpus.is_empty() && r.below(100) < t.guided {
                mutate(&mut r, &corpus)
            } else {
                vec![]
            };
            let st = format!("{ti};{cs};{};\n", tape_str(&tape));
            let _ = status.write_all_at(st.as_bytes(), 0);
            for c in COUNTS[..ng].iter() {
                c.store(0, Relaxed);
            }
            let capture = samples.len() < 2 && evals % 50 == 0;
            let (o, ctx, rec) = run_case(t.f, tape, Some(cs), capture);
            evals += 1;
            maxfuel = maxfuel.max(fuel_used());
            let mut fresh = false;
            for g in 0..ng {
                let b = bucket(COUNTS[g].load(Relaxed));
                if b & !virgin[g] != 0 {
                    virgin[g] |= b;
                    fresh = true;
                }
            }
            if fresh && t.guided > 0 && rec.len() <= 4000 && corpus.len() < 20_000 {
                corpus.push(rec.clone());
            }
            for l in &ctx.labels {
                *labels.entry(l).or_default() += 1;
            }
            match o {
                Outcome::Pass => {
                    if let Some(k) = ctx.nontrivial {
                        nontriv += 1;
                        distinct.insert(mix(k, ti as u64));
                        if capture {
                            samples.push(ctx.desc);
                        }
                    }
                }
                Outcome::Discard => discards += 1,
                Outcome::Harness(m) => {
                    writeln!(out, "HARNESS {}", b64(&format!("{m} target={} tape={}", t.name, tape_str(&rec)))).unwrap();
                    code = 2;
                }
                Outcome::Fail(_) => {
                    let small = shrink(rec, 1500, |c| match run_case(t.f, c.to_vec(), None, false) {
                        (Outcome::Fail(_), _, rec) => Some(rec),
                        _ => None,
                    });
                    writeln!(out, "FAIL {ti} {}", tape_str(&small)).unwrap();
                    code = 1;
                }
            }
            if code != 0 {
                break;
            }
            i += shards;
        }
        let edges = virgin.iter().filter(|v| **v != 0).count();
        writeln!(out, "T {ti} {evals} {discards} {nontriv} {edges} {maxfuel} {}", corpus.len()).unwrap();
        for (l, n) in labels {
            writeln!(out, "L {ti} {n} {l}").unwrap();
        }
        for s in samples {
            writeln!(out, "S {ti} {}", b64(&s)).unwrap();
        }
        if code != 0 {
            break;
        }
    }
    let mut d: Vec<u8> = Vec::with_capacity(distinct.len() * 8);
    for h in &distinct {
        d.extend_from_slice(&h.to_le_bytes());
    }
    fs::write(dir.join(format!("distinct.{shard}")), d).expect("distinct file");
    fs::write(dir.join(format!("out.{shard}")), out).expect("out file");
    code
}

// ---------------------------------------------------------------- parent

/// How a single case ends in a process of its own.
enum One {
    Pass,
    Fail(String, String, Vec<u64>),
    Error(String),
}

fn run_one_child(id: &str, target: &str, tape: &[u64], seed: Option<u64>, dir: &Path) -> One {
    let f = dir.join("one.tape");
    fs::write(&f, tape_str(tape)).expect("tape file");
    let mut c = Command::new(std::env::current_exe().expect("exe"));
    c.arg("one").arg(id).arg(target).arg(&f);
    if let Some(s) = seed {
        c.arg(s.to_string());
    }
    let o = match c.stdin(Stdio::null()).stderr(Stdio::null()).output() {
        Ok(o) => o,
        Err(e) => return One::Error(e.to_string()),
    };
    let so = String::from_utf8_lossy(&o.stdout).to_string();
    let field = |k: &str| so.lines().find_map(|l| l.strip_prefix(k)).map(|s| s.to_string());
    let desc = field("DESC ").map(|s| unb64(&s)).unwrap_or_default();
    match (o.status.code(), o.status.signal()) {
        (Some(0), _) => One::Pass,
        (Some(1), _) => One::Fail(
            field("MSG ").map(|s| unb64(&s)).unwrap_or_default(),
            desc,
            parse_tape(&field("REC ").unwrap_or_default()),
        ),
        (Some(EXIT_RUNAWAY), _) => One::Fail(
            format!("does not terminate: more than {FUEL_PER_CASE} edges executed (ten times as many with large parts) or {MEM_LIMIT} bytes held"),
            desc,
            vec![],
        ),
        (_, Some(s)) if s == 11 || s == 6 || s == 7 || s == 4 => {
            One::Fail(format!("process killed by signal {s} (crash or stack overflow)"), desc, vec![])
        }
        (c, s) => One::Error(format!("single case ended with code {c:?} signal {s:?}")),
    }
}

pub fn one(p: &Property, target: &str, tapefile: &str, seed: Option<u64>) -> i32 {
    use std::io::Write as _;
    install_hook();
    let tape = parse_tape(&fs::read_to_string(tapefile).unwrap_or_default());
    let Some(t) = p.targets.iter().find(|t| t.name == target) else { return 2 };
    // A first pass under a panic-free capture of the input is not possible when
    // the code under test dies, so the description is printed as it is built.
    ONE_STREAM.store(1, Relaxed);
    let (o, ctx, rec) = run_case(t.f, tape, seed, true);
    println!("DESC {}", b64(&ctx.desc));
    println!("REC {}", tape_str(&rec));
    let r = match o {
        Outcome::Pass | Outcome::Discard => 0,
        Outcome::Fail(m) => {
            println!("MSG {}", b64(&m));
            1
        }
        Outcome::Harness(m) => {
            println!("MSG {}", b64(&m));
            2
        }
    };
    let _ = std::io::stdout().flush();
    r
}

static ONE_STREAM: AtomicU32 = AtomicU32::new(0);

/// Announce the input before the code under test runs on it, so that it is
/// known even when that run kills the process.
pub fn announce(ctx: &mut Ctx, f: impl FnOnce() -> String) {
    if ctx.capture {
        use std::io::Write as _;
        ctx.input(f);
        if ONE_STREAM.load(Relaxed) == 1 {
            println!("DESC {}", b64(&ctx.desc));
            let _ = std::io::stdout().flush();
        }
    }
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Known {
    pub property: String,
    pub target: String,
    pub tape: Vec<u64>,
    pub what: String,
}

/// Lines of known_findings.txt: `known: property=<id> target=<t> tape=<..> <what fails>`
/// for findings that are recorded; `fixed:` lines suppress nothing.
pub fn known_findings(root: &Path) -> Vec<Known> {
    let s = fs::read_to_string(root.join("known_findings.txt")).unwrap_or_default();
    s.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: ")?;
            let mut it = l.splitn(4, ' ');
            Some(Known {
                property: it.next()?.strip_prefix("property=")?.into(),
                target: it.next()?.strip_prefix("target=")?.into(),
                tape: parse_tape(it.next()?.strip_prefix("tape=")?),
                what: it.next().unwrap_or("").into(),
            })
        })
        .collect()
}

pub fn check(p: &Property, root: &Path) -> i32 {
    let start = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let work: PathBuf = root.join("work").join(format!("{}-{}", p.id, std::process::id()));
    fs::create_dir_all(&work).expect("work dir");
    let shards: u64 = 8;
    let limit: u64 = if thorough { 6 * 3600 } else { 780 };
    // Recorded findings are replayed on their own and announced.
    let known: Vec<Known> = known_findings(root).into_iter().filter(|k| k.property == p.id).collect();
    for k in &known {
        if let One::Fail(..) = run_one_child(p.id, &k.target, &k.tape, None, &work) {
            println!("KNOWN-FINDING: property={} {}", p.id, k.what);
        }
    }
    let exe = std::env::current_exe().expect("exe");
    let mut kids = vec![];
    for s in 0..shards {
        let c = Command::new(&exe)
            .args(["worker", p.id, &s.to_string(), &shards.to_string(), &seed.to_string(), &tier])
            .arg(&work)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .expect("spawn");
        kids.push(Some(c));
    }
    let mut ends: Vec<Option<std::process::ExitStatus>> = vec![None; shards as usize];
    let mut timed_out = false;
    loop {
        let mut alive = false;
        for (i, k) in kids.iter_mut().enumerate() {
            if let Some(c) = k {
                match c.try_wait() {
                    Ok(Some(st)) => {
                        ends[i] = Some(st);
                        *k = None;
                    }
                    _ => alive = true,
                }
            }
        }
        if !alive {
            break;
        }
        if start.elapsed().as_secs() > limit {
            timed_out = true;
            for k in kids.iter_mut().flatten() {
                let _ = k.kill();
                let _ = k.wait();
            }
            break;
        }
        std::thread::sleep(std::time::Duration::from_millis(15));
    }
    let nt = p.targets.len();
    let mut agg = vec![[0u64; 6]; nt];
    let mut labels: Vec<BTreeMap<String, u64>> = vec![BTreeMap::new(); nt];
    let mut samples: Vec<Vec<String>> = vec![vec![]; nt];
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut fails: Vec<(usize, Vec<u64>)> = vec![];
    let mut errors: Vec<String> = vec![];
    if timed_out {
        errors.push(format!("workers did not finish within {limit} s"));
    }
    for s in 0..shards {
        if let Some(st) = ends[s as usize] {
            let code = st.code();
            if !matches!(code, Some(0) | Some(1) | Some(2)) {
                // The worker died: confirm the last case alone, then minimise it.
                let stt = fs::read_to_string(work.join(format!("status.{s}"))).unwrap_or_default();
                let line = stt.lines().next().unwrap_or("").to_string();
                let mut it = line.split(';');
                let ti: usize = it.next().and_then(|v| v.parse().ok()).unwrap_or(0);
                let cs: Option<u64> = it.next().and_then(|v| v.parse().ok());
                let tape = parse_tape(it.next().unwrap_or(""));
                let t = &p.targets[ti.min(nt - 1)];
                if let (Some(cs), true) = (cs, fails.is_empty()) {
                    // Expand the seeded tape by generating without running: the
                    // generator runs before the code under test, so the record of
                    // an aborted case is recovered by replaying with a longer
                    // tape drawn from the same generator.
                    let mut full = tape.clone();
                    let mut r = Rng::new(cs);
                    full.extend((0..12_000).map(|_| r.next()));
                    // Src draws from the generator with `below(n)`; the raw
                    // values reduce to the same choices.
                    match run_one_child(p.id, t.name, &full, None, &work) {
                        One::Fail(..) => {
                            let small = shrink(full, 400, |c| match run_one_child(p.id, t.name, c, None, &work) {
                                One::Fail(_, _, rec) if rec.is_empty() => Some(c.to_vec()),
                                One::Fail(_, _, rec) => Some(rec),
                                _ => None,
                            });
                            fails.push((ti, small));
                        }
                        _ => errors.push(format!(
                            "worker {s} ended with {st:?} on target {} but the case alone does not reproduce it",
                            t.name
                        )),
                    }
                }
                continue;
            }
            let o = fs::read_to_string(work.join(format!("out.{s}"))).unwrap_or_default();
            for l in o.lines() {
                let w: Vec<&str> = l.splitn(3, ' ').collect();
                match w[0] {
                    "T" => {
                        let n: Vec<u64> = l.split(' ').skip(1).filter_map(|v| v.parse().ok()).collect();
                        let a = &mut agg[n[0] as usize];
                        a[0] += n[1];
                        a[1] += n[2];
                        a[2] += n[3];
                        a[3] = a[3].max(n[4]);
                        a[4] = a[4].max(n[5]);
                        a[5] += n[6];
                    }
                    "L" => {
                        let ti: usize = w[1].parse().unwrap();
                        let (n, name) = w[2].split_once(' ').unwrap();
                        *labels[ti].entry(name.into()).or_default() += n.parse::<u64>().unwrap();
                    }
                    "S" => samples[w[1].parse::<usize>().unwrap()].push(unb64(w[2])),
                    "FAIL" => fails.push((w[1].parse().unwrap(), parse_tape(w.get(2).unwrap_or(&"")))),
                    "HARNESS" => errors.push(unb64(w[1])),
                    _ => {}
                }
            }
            if let Ok(d) = fs::read(work.join(format!("distinct.{s}"))) {
                for c in d.chunks_exact(8) {
                    distinct.insert(u64::from_le_bytes(c.try_into().unwrap()));
                }
            }
        }
    }
    // A failure counts only when it reproduces alone, in a fresh process.
    let mut violation: Option<String> = None;
    fails.sort_by_key(|f| f.1.len());
    for (ti, tape) in &fails {
        let t = &p.targets[*ti];
        match run_one_child(p.id, t.name, tape, None, &work) {
            One::Fail(msg, desc, _) => {
                let rdir = root.join("work").join("replay");
                fs::create_dir_all(&rdir).expect("replay dir");
                let file = rdir.join(format!("{}-{}-{:08x}.txt", p.id, t.name, hash_str(&tape_str(tape)) as u32));
                let body = format!(
                    "property={}\ntarget={}\nseed={seed}\ntape={}\nreplay: /verif/run.sh replay {}\n--- failure\n{msg}\n--- case\n{desc}\n",
                    p.id,
                    t.name,
                    tape_str(tape),
                    file.display()
                );
                fs::write(&file, &body).expect("replay file");
                println!("{body}");
                violation = Some(format!("VIOLATION property={} replay={}", p.id, file.display()));
                break;
            }
            One::Pass => errors.push(format!(
                "a failing case of target {} did not reproduce in a fresh process: tape {}",
                t.name,
                tape_str(tape)
            )),
            One::Error(e) => errors.push(e),
        }
    }
    // Evidence.
    let evals: u64 = agg.iter().map(|a| a[0]).sum();
    let mut js = String::new();
    let _ = write!(
        js,
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {evals},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [",
        json_str(p.id),
        json_str(if thorough { "thorough" } else { "quick" }),
        distinct.len(),
        json_str(p.rule)
    );
    let mut first = true;
    for (ti, t) in p.targets.iter().enumerate() {
        for s in samples[ti].iter().take(2) {
            let mut s: String = s.chars().take(1500).collect();
            s = format!("[{}] {s}", t.name);
            let _ = write!(js, "{}\n   {}", if first { "" } else { "," }, json_str(&s));
            first = false;
        }
    }
    js.push_str("\n  ],\n  \"targets\": [");
    for (ti, t) in p.targets.iter().enumerate() {
        let a = agg[ti];
        let _ = write!(
            js,
            "{}\n   {{\"name\": {}, \"evaluations\": {}, \"discarded\": {}, \"nontrivial\": {}, \"edges_reached\": {}, \"max_edges_executed_in_a_case\": {}, \"coverage_corpus\": {}, \"labels\": {{",
            if ti == 0 { "" } else { "," },
            json_str(t.name), a[0], a[1], a[2], a[3], a[4], a[5]
        );
        for (i, (l, n)) in labels[ti].iter().enumerate() {
            let _ = write!(js, "{}{}: {n}", if i == 0 { "" } else { ", " }, json_str(l));
        }
        js.push_str("}}");
    }
    let _ = write!(
        js,
        "\n  ]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        p.assumptions.iter().map(|a| json_str(a)).collect::<Vec<_>>().join(", "),
        start.elapsed().as_secs_f64(),
        violation.is_some() as u8
    );
    let ev = root.join("evidence");
    let _ = fs::create_dir_all(&ev);
    fs::write(ev.join(format!("{}.json", p.id)), js).expect("evidence");
    let _ = fs::remove_dir_all(&work);
    println!(
        "{} tier={tier} seed={seed}: {evals} cases, {} distinct non-trivial, {:.1} s",
        p.id,
        distinct.len(),
        start.elapsed().as_secs_f64()
    );
    if let Some(v) = violation {
        println!("{v}");
        return 1;
    }
    if !errors.is_empty() {
        for e in &errors {
            eprintln!("ERROR: {e}");
            println!("ERROR: {e}");
        }
        return 2;
    }
    0
}

pub fn replay(p: &Property, target: &str, tape: &str) -> i32 {
    let dir = std::env::temp_dir().join(format!("vh-replay-{}", std::process::id()));
    fs::create_dir_all(&dir).expect("dir");
    let r = match run_one_child(p.id, target, &parse_tape(tape), None, &dir) {
        One::Pass => {
            println!("replay passes");
            0
        }
        One::Fail(m, d, _) => {
            println!("--- failure\n{m}\n--- case\n{d}");
            println!("VIOLATION property={} replay=-", p.id);
            1
        }
        One::Error(e) => {
            println!("ERROR: {e}");
            2
        }
    };
    let _ = fs::remove_dir_all(&dir);
    r
}

/// Print what a generator produces.
pub fn show(p: &Property, target: &str, n: u64, seed: u64) {
    install_hook();
    let t = p.targets.iter().find(|t| t.name == target).expect("target");
    for i in 0..n {
        let cs = mix(seed, i);
        let (o, ctx, _) = run_case(t.f, vec![], Some(cs), true);
        println!("#{i} {:?}\n{}", ctx.labels, ctx.desc);
        match o {
            Outcome::Fail(m) => println!("FAIL {m}"),
            Outcome::Harness(m) => println!("HARNESS {m}"),
            Outcome::Discard => println!("DISCARD"),
            Outcome::Pass => {}
        }
    }
}
