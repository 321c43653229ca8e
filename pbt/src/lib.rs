//! A small property-based-testing engine in the Hypothesis style.
//!
//! Every random decision a property makes is one bounded integer drawn from a `G`; the list of
//! drawn integers (the *tape*) determines the case completely.  Generation records the tape,
//! shrinking edits the tape (delete / zero / lower), and a replay file is just the tape.
//! Nothing in a property may read a clock, an RNG or a map iteration order.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- rng

#[derive(Clone)]
pub struct Rng([u64; 4]);

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        Rng([
            splitmix(&mut s),
            splitmix(&mut s),
            splitmix(&mut s),
            splitmix(&mut s),
        ])
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            return self.next();
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
}

pub fn hash64(data: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in data {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

// ---------------------------------------------------------------- failures

#[derive(Clone, Debug)]
pub struct Fail {
    /// stable signature, matched exactly against the known-findings file
    pub key: String,
    pub msg: String,
}

pub type R = Result<(), Fail>;

pub fn fail<T>(key: &str, msg: String) -> Result<T, Fail> {
    Err(Fail {
        key: key.to_string(),
        msg,
    })
}

#[macro_export]
macro_rules! ensure {
    ($key:expr, $cond:expr, $($arg:tt)+) => {
        if !$cond {
            return Err($crate::Fail { key: ($key).to_string(), msg: format!($($arg)+) });
        }
    };
}

// ---------------------------------------------------------------- generator handle

pub struct G {
    input: Vec<u64>,
    rng: Option<Rng>,
    pub tape: Vec<u64>,
    pub trace: Vec<String>,
    pub tracing: bool,
    pub classes: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
    /// 1 in the quick tier, larger in the thorough tier: scales history lengths
    pub size: u64,
}

impl G {
    fn random(seed: u64, size: u64, tracing: bool) -> Self {
        G {
            input: vec![],
            rng: Some(Rng::new(seed)),
            tape: Vec::with_capacity(256),
            trace: vec![],
            tracing,
            classes: BTreeMap::new(),
            nontrivial: false,
            size,
        }
    }
    pub fn replay(tape: &[u64], size: u64, tracing: bool) -> Self {
        G {
            input: tape.to_vec(),
            rng: None,
            tape: Vec::with_capacity(tape.len()),
            trace: vec![],
            tracing,
            classes: BTreeMap::new(),
            nontrivial: false,
            size,
        }
    }

    /// uniform in [0, n); n == 0 means the full u64 range. 0 is the simplest choice.
    pub fn below(&mut self, n: u64) -> u64 {
        let v = match &mut self.rng {
            Some(r) => r.below(n),
            None => {
                let raw = self.input.get(self.tape.len()).copied().unwrap_or(0);
                if n == 0 {
                    raw
                } else {
                    raw % n
                }
            }
        };
        self.tape.push(v);
        v
    }
    pub fn u64(&mut self) -> u64 {
        self.below(0)
    }
    pub fn u8(&mut self) -> u8 {
        self.below(256) as u8
    }
    /// one more round of a loop? Between lo and hi rounds; deleting the choices of a round shrinks the loop.
    pub fn more(&mut self, done: usize, lo: usize, hi: usize) -> bool {
        if done < lo {
            return true;
        }
        if done >= hi {
            return false;
        }
        self.below(((hi - lo) as u64 * 3 / 4).max(2)) != 0
    }
    /// inclusive
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn size(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// true with probability num/den; the simplest choice is false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        let i = self.below(xs.len() as u64) as usize;
        &xs[i]
    }
    /// index distributed by weight; index 0 is simplest
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= *x;
        }
        unreachable!()
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u8()).collect()
    }
    /// n pseudo-random bytes that cost a single choice (not individually shrinkable)
    pub fn blob(&mut self, n: usize) -> Vec<u8> {
        let seed = self.below(1 << 32);
        if seed == 0 {
            return vec![0; n];
        }
        let mut r = Rng::new(seed);
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&r.next().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        // the all-zero tape leaves the order unchanged
        for i in 0..xs.len().saturating_sub(1) {
            let j = i + self.below((xs.len() - i) as u64) as usize;
            xs.swap(i, j);
        }
    }
    /// numbers that sit on edges more often than a uniform draw would
    pub fn edgy_u64(&mut self) -> u64 {
        match self.weighted(&[4, 2, 2, 2, 1]) {
            0 => self.below(16),
            1 => self.below(1 << 16),
            2 => self.u64(),
            3 => u64::MAX - self.below(4),
            _ => {
                let b = self.below(64);
                (1u64 << b).wrapping_add(self.below(3)).wrapping_sub(1)
            }
        }
    }
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if self.tracing {
            self.trace.push(f());
        }
    }
    pub fn class(&mut self, c: &'static str) {
        *self.classes.entry(c).or_insert(0) += 1;
    }
    pub fn class_if(&mut self, cond: bool, c: &'static str) {
        if cond {
            self.class(c)
        }
    }
}

// ---------------------------------------------------------------- panics

thread_local! {
    static CAPTURE: Cell<bool> = Cell::new(false);
    static LAST_PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
}

fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if CAPTURE.with(|c| c.get()) {
            let loc = info
                .location()
                .map(|l| format!("{}:{}", l.file(), l.line()))
                .unwrap_or_default();
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "<non-string panic>".into()
            };
            LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
        } else {
            default(info);
        }
    }));
}

/// Run `f`; a panic that starts in the code under test (or in a library it called) comes back as
/// `Err((location, message))`; a panic raised by the harness itself is re-raised.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    let was = CAPTURE.with(|c| c.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    CAPTURE.with(|c| c.set(was));
    match r {
        Ok(v) => Ok(v),
        Err(payload) => {
            let (loc, msg) = LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or(("?".into(), "?".into()));
            if loc.starts_with("/verif") || loc.starts_with("src/") {
                LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
                std::panic::resume_unwind(payload);
            }
            Err((loc, msg))
        }
    }
}

fn loc_key(loc: &str) -> String {
    // line numbers move with any edit: keep only the file
    loc.rsplit_once(':').map(|x| x.0).unwrap_or(loc).to_string()
}

enum Outcome {
    Pass,
    Fail(Fail),
    HarnessBug(String),
}

fn run_case(f: PropFn, g: &mut G) -> Outcome {
    let was = CAPTURE.with(|c| c.replace(true));
    let r = catch_unwind(AssertUnwindSafe(|| f(g)));
    CAPTURE.with(|c| c.set(was));
    match r {
        Ok(Ok(())) => Outcome::Pass,
        Ok(Err(e)) => Outcome::Fail(e),
        Err(_) => {
            let (loc, msg) = LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or(("?".into(), "?".into()));
            if loc.starts_with("/verif") || loc.starts_with("src/") || loc == "?" {
                Outcome::HarnessBug(format!("harness panic at {loc}: {msg}"))
            } else {
                Outcome::Fail(Fail {
                    key: format!("panic@{}", loc_key(&loc)),
                    msg: format!("code under test panicked at {loc}: {msg}"),
                })
            }
        }
    }
}

// ---------------------------------------------------------------- properties and runner

pub type PropFn = fn(&mut G) -> R;

pub struct Prop {
    pub id: &'static str,
    /// named sub-checks: (name, relative quick cases, relative thorough multiplier, function)
    pub subs: Vec<Sub>,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

pub struct Sub {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub threads: usize,
    pub f: PropFn,
}

impl Sub {
    pub fn new(name: &'static str, quick: u64, thorough: u64, f: PropFn) -> Self {
        Sub {
            name,
            quick,
            thorough,
            threads: 8,
            f,
        }
    }
    /// a sub-check that spawns threads of its own: run its cases one at a time
    pub fn serial(name: &'static str, quick: u64, thorough: u64, f: PropFn) -> Self {
        Sub {
            name,
            quick,
            thorough,
            threads: 1,
            f,
        }
    }
}

fn case_seed(seed: u64, prop: &str, sub: &str, i: u64) -> u64 {
    let mut s = seed ^ hash64(prop.as_bytes()) ^ hash64(sub.as_bytes()).rotate_left(17);
    splitmix(&mut s);
    s ^= i.wrapping_mul(0xD1342543DE82EF95);
    splitmix(&mut s)
}

#[derive(Default)]
struct Stats {
    evals: u64,
    nontrivial: HashSet<u64>,
    classes: BTreeMap<String, u64>,
    known: BTreeMap<String, u64>,
    samples: Vec<serde_json::Value>,
}

/// The cases that are being run, in a file shared with the supervising process (see `supervise`):
/// word 0 is the sub-check, word w + 1 the case of worker w (+ 1, 0: idle)
const OPEN_WORDS: usize = 64;

fn open_cases() -> Option<&'static [AtomicU64; OPEN_WORDS]> {
    static MAP: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    let addr = *MAP.get_or_init(|| {
        let Ok(path) = std::env::var("PBT_OPEN_CASES") else {
            return 0;
        };
        let Ok(f) = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .open(path)
        else {
            return 0;
        };
        unsafe {
            use std::os::fd::AsRawFd;
            let a = libc::mmap(
                std::ptr::null_mut(),
                OPEN_WORDS * 8,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            );
            if a == libc::MAP_FAILED {
                0
            } else {
                a as usize
            }
        }
    });
    (addr != 0).then(|| unsafe { &*(addr as *const [AtomicU64; OPEN_WORDS]) })
}

fn mark_open(word: usize, v: u64) {
    if let (Some(m), true) = (open_cases(), word < OPEN_WORDS) {
        m[word].store(v, Ordering::Relaxed);
    }
}

struct Slot {
    /// case index + 1 (0: idle)
    case: AtomicU64,
    /// thread cpu time (ns) at case start
    cpu0: AtomicU64,
    clock: AtomicU64,
}

fn thread_clock() -> u64 {
    unsafe {
        let mut c: libc::clockid_t = 0;
        if libc::pthread_getcpuclockid(libc::pthread_self(), &mut c) == 0 {
            c as u32 as u64 | (1 << 40)
        } else {
            0
        }
    }
}

fn clock_ns(clock: u64) -> u64 {
    if clock == 0 {
        return 0;
    }
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        if libc::clock_gettime(clock as u32 as i32, &mut t) == 0 {
            t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
        } else {
            0
        }
    }
}

pub struct Ctx {
    pub root: String,
    pub tier: String,
    pub seed: u64,
    pub scale: f64,
    out: std::fs::File,
}

impl Ctx {
    fn say(&self, s: &str) {
        let mut o = &self.out;
        let _ = writeln!(o, "{s}");
        let _ = o.flush();
    }
}

struct Known {
    /// (property, key, description)
    entries: Vec<(String, String, String)>,
}

fn load_known(root: &str) -> Known {
    let mut entries = vec![];
    if let Ok(t) = std::fs::read_to_string(format!("{root}/known_findings.txt")) {
        for l in t.lines() {
            let l = l.trim();
            if let Some(rest) = l.strip_prefix("known: ") {
                let mut prop = String::new();
                let mut key = String::new();
                let mut desc = vec![];
                for w in rest.split_whitespace() {
                    if let Some(p) = w.strip_prefix("property=") {
                        prop = p.into();
                    } else if let Some(k) = w.strip_prefix("key=") {
                        key = k.into();
                    } else {
                        desc.push(w);
                    }
                }
                entries.push((prop, key, desc.join(" ")));
            }
        }
    }
    Known { entries }
}

fn shrink(
    f: PropFn,
    size: u64,
    tape: Vec<u64>,
    known: &HashSet<String>,
    budget: usize,
) -> Vec<u64> {
    let mut best = tape;
    let mut runs = 0usize;
    let t0 = Instant::now();
    let try_tape = |t: &[u64], runs: &mut usize| -> Option<Vec<u64>> {
        if *runs >= budget || t0.elapsed() > Duration::from_secs(90) {
            return None;
        }
        *runs += 1;
        let mut g = G::replay(t, size, false);
        match run_case(f, &mut g) {
            Outcome::Fail(e) if !known.contains(&e.key) => Some(g.tape),
            _ => None,
        }
    };
    fn better(a: &[u64], b: &[u64]) -> bool {
        // shortlex
        a.len() < b.len() || (a.len() == b.len() && a < b)
    }
    loop {
        let before = best.clone();
        // delete chunks
        let mut chunk = (best.len() / 2).max(1).min(256);
        while chunk >= 1 {
            let mut i = 0;
            while i < best.len() {
                let mut t = best.clone();
                let end = (i + chunk).min(t.len());
                t.drain(i..end);
                match try_tape(&t, &mut runs) {
                    Some(n) if better(&n, &best) => best = n,
                    _ => {
                        // also try: delete the chunk and lower the preceding length-like choice
                        if i > 0 && best[i - 1] > 0 && chunk <= 16 {
                            let mut t2 = best.clone();
                            t2.drain(i..end);
                            t2[i - 1] -= 1;
                            match try_tape(&t2, &mut runs) {
                                Some(n) if better(&n, &best) => best = n,
                                _ => i += chunk,
                            }
                        } else {
                            i += chunk
                        }
                    }
                }
            }
            chunk = if chunk <= 4 { chunk - 1 } else { chunk / 2 };
        }
        // zero chunks, then lower single values
        let mut chunk = 32usize;
        while chunk >= 1 {
            let mut i = 0;
            while i < best.len() {
                let end = (i + chunk).min(best.len());
                if best[i..end].iter().any(|x| *x != 0) {
                    let mut t = best.clone();
                    for x in &mut t[i..end] {
                        *x = 0;
                    }
                    if let Some(n) = try_tape(&t, &mut runs) {
                        if better(&n, &best) {
                            best = n;
                        }
                    }
                }
                i += chunk;
            }
            chunk /= 4;
        }
        for i in 0..best.len() {
            if i >= best.len() {
                break;
            }
            let (mut lo, mut hi) = (0u64, best[i]);
            let mut guard = 0;
            while lo < hi && guard < 70 {
                guard += 1;
                let mid = lo + (hi - lo) / 2;
                let mut t = best.clone();
                t[i] = mid;
                match try_tape(&t, &mut runs) {
                    Some(n) if better(&n, &best) => {
                        best = n;
                        if i >= best.len() {
                            break;
                        }
                        hi = best[i].min(mid);
                    }
                    _ => lo = mid + 1,
                }
            }
        }
        if best == before || runs >= budget || t0.elapsed() > Duration::from_secs(90) {
            return best;
        }
    }
}

fn proc_threads_state(skip_tid: i32) -> Option<(bool, u64)> {
    // (all other threads of this process sleeping, sum of their cpu ticks)
    let mut all_sleep = true;
    let mut ticks = 0u64;
    for e in std::fs::read_dir("/proc/self/task").ok()? {
        let e = e.ok()?;
        let tid: i32 = e.file_name().to_string_lossy().parse().ok()?;
        if tid == skip_tid {
            continue;
        }
        let s = std::fs::read_to_string(e.path().join("stat")).ok()?;
        let rest = &s[s.rfind(')')? + 2..];
        let fs: Vec<&str> = rest.split(' ').collect();
        if fs[0] != "S" {
            all_sleep = false;
        }
        ticks += fs[11].parse::<u64>().ok()? + fs[12].parse::<u64>().ok()?;
    }
    Some((all_sleep, ticks))
}

fn write_evidence(
    ctx: &Ctx,
    p: &Prop,
    stats: &Stats,
    per_sub: &BTreeMap<String, (u64, u64)>,
    wall: f64,
    violations: u64,
) {
    let subs: serde_json::Map<String, serde_json::Value> = per_sub
        .iter()
        .map(|(k, (e, n))| {
            (
                k.clone(),
                serde_json::json!({"evaluations": e, "distinct_nontrivial": n}),
            )
        })
        .collect();
    let ev = serde_json::json!({
        "property": p.id,
        "tier": ctx.tier,
        "seed": ctx.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": stats.evals,
            "distinct_nontrivial": stats.nontrivial.len(),
            "rule": p.rule,
            "samples": stats.samples,
            "classes": stats.classes,
            "sub_checks": subs,
            "known_finding_hits": stats.known,
        },
        "assumptions": p.assumptions,
        "wall_s": wall,
        "violations": violations,
    });
    let dir = format!("{}/evidence", ctx.root);
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(
        format!("{dir}/{}.json", p.id),
        serde_json::to_string_pretty(&ev).unwrap() + "\n",
    )
    .expect("write evidence");
}

fn write_replay(ctx: &Ctx, p: &Prop, body: serde_json::Value) -> String {
    let dir = format!("{}/replays", ctx.root);
    let _ = std::fs::create_dir_all(&dir);
    let txt = serde_json::to_string_pretty(&body).unwrap() + "\n";
    let path = format!("{dir}/{}-{:016x}.json", p.id, hash64(txt.as_bytes()));
    std::fs::write(&path, txt).expect("write replay");
    path
}

fn run_prop(ctx: &Arc<Ctx>, p: &Prop, only_sub: Option<&str>) -> i32 {
    let t0 = Instant::now();
    let known = load_known(&ctx.root);
    let known_keys: HashSet<String> = known
        .entries
        .iter()
        .filter(|e| e.0 == p.id)
        .map(|e| e.1.clone())
        .collect();
    let mut stats = Stats::default();
    let mut per_sub: BTreeMap<String, (u64, u64)> = BTreeMap::new();
    let size = if ctx.tier == "thorough" { 2 } else { 1 };

    for (sub_index, sub) in p.subs.iter().enumerate() {
        if only_sub.map_or(false, |s| s != sub.name) {
            continue;
        }
        mark_open(0, sub_index as u64 + 1);
        let n = if ctx.tier == "thorough" {
            sub.thorough
        } else {
            sub.quick
        };
        let n = ((n as f64) * ctx.scale).ceil() as u64;
        let next = Arc::new(AtomicU64::new(0));
        let best_fail: Arc<Mutex<Option<(u64, Vec<u64>, Fail)>>> = Arc::new(Mutex::new(None));
        let min_fail = Arc::new(AtomicU64::new(u64::MAX));
        let harness_bug: Arc<Mutex<Option<String>>> = Arc::new(Mutex::new(None));
        let slots: Arc<Vec<Slot>> = Arc::new(
            (0..sub.threads)
                .map(|_| Slot {
                    case: AtomicU64::new(0),
                    cpu0: AtomicU64::new(0),
                    clock: AtomicU64::new(0),
                })
                .collect(),
        );
        let done = Arc::new(AtomicBool::new(false));
        let known_keys = Arc::new(known_keys.clone());

        // watchdog: reports a *structural* deadlock (a case is open and no thread of this process
        // has consumed cpu or been runnable for 30 consecutive seconds) or a case that burnt 150 s
        // of its own cpu time (normal cases take milliseconds).  Wall-clock slowness never counts.
        let wd = {
            let slots = slots.clone();
            let done = done.clone();
            let ctx2 = ctx.clone();
            let pid = p.id;
            let sname = sub.name;
            let seed = ctx.seed;
            std::thread::spawn(move || {
                let tid = unsafe { libc::syscall(libc::SYS_gettid) } as i32;
                let mut quiet = 0;
                let mut last = (0u64, 0u64);
                let mut tick = 0u32;
                while !done.load(Ordering::Relaxed) {
                    std::thread::sleep(Duration::from_millis(100));
                    tick += 1;
                    if tick % 10 != 0 {
                        continue;
                    }
                    let open: u64 = slots
                        .iter()
                        .map(|s| s.case.load(Ordering::Relaxed))
                        .fold(0u64, |a, b| a.wrapping_mul(1000003).wrapping_add(b));
                    let any = slots.iter().any(|s| s.case.load(Ordering::Relaxed) != 0);
                    let mut verdict: Option<(u64, String)> = None;
                    if let Some((sleeping, ticks)) = proc_threads_state(tid) {
                        if any && sleeping && (ticks, open) == last {
                            quiet += 1;
                        } else {
                            quiet = 0;
                        }
                        last = (ticks, open);
                        if quiet >= 30 {
                            let c = slots
                                .iter()
                                .map(|s| s.case.load(Ordering::Relaxed))
                                .filter(|c| *c != 0)
                                .min()
                                .unwrap();
                            verdict = Some((
                                c - 1,
                                "deadlock: every thread of the case is blocked for good".into(),
                            ));
                        }
                    }
                    for s in slots.iter() {
                        let c = s.case.load(Ordering::Relaxed);
                        if c == 0 {
                            continue;
                        }
                        let used = clock_ns(s.clock.load(Ordering::Relaxed))
                            .saturating_sub(s.cpu0.load(Ordering::Relaxed));
                        if used > 150_000_000_000 && s.case.load(Ordering::Relaxed) == c {
                            verdict = Some((
                                c - 1,
                                "non-termination: one case consumed 150 s of cpu time".into(),
                            ));
                        }
                    }
                    if let Some((case, why)) = verdict {
                        let body = serde_json::json!({
                            "property": pid, "sub": sname, "tier": ctx2.tier, "size": size,
                            "seed": seed, "case": case, "message": why,
                        });
                        let dir = format!("{}/replays", ctx2.root);
                        let _ = std::fs::create_dir_all(&dir);
                        let path = format!("{dir}/{pid}-hang-{sname}-{case}.json");
                        let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
                        let ev = serde_json::json!({
                            "property": pid, "tier": ctx2.tier, "seed": seed, "level": "exploration",
                            "coverage": {"evaluations": case + 1, "distinct_nontrivial": 0,
                                "rule": "run cut short by a deadlock", "samples": [why.clone()]},
                            "wall_s": 0.0, "violations": 1,
                        });
                        let _ = std::fs::create_dir_all(format!("{}/evidence", ctx2.root));
                        let _ = std::fs::write(
                            format!("{}/evidence/{pid}.json", ctx2.root),
                            serde_json::to_string_pretty(&ev).unwrap(),
                        );
                        ctx2.say(&format!("{pid}/{sname} case {case}: {why}"));
                        ctx2.say(&format!("VIOLATION property={pid} replay={path}"));
                        std::process::exit(1);
                    }
                }
            })
        };

        let mut handles = vec![];
        let (tier_seed, pid, sname, f) = (ctx.seed, p.id, sub.name, sub.f);
        for w in 0..sub.threads {
            let next = next.clone();
            let best_fail = best_fail.clone();
            let min_fail = min_fail.clone();
            let slots = slots.clone();
            let harness_bug = harness_bug.clone();
            let known_keys = known_keys.clone();
            handles.push(
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn(move || {
                        let mut st = Stats::default();
                        let clock = thread_clock();
                        slots[w].clock.store(clock, Ordering::Relaxed);
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= n || i > min_fail.load(Ordering::Relaxed) {
                                break;
                            }
                            if harness_bug.lock().unwrap().is_some() {
                                break;
                            }
                            let s = case_seed(tier_seed, pid, sname, i);
                            slots[w].cpu0.store(clock_ns(clock), Ordering::Relaxed);
                            slots[w].case.store(i + 1, Ordering::Relaxed);
                            mark_open(w + 1, i + 1);
                            let mut g = G::random(s, size, false);
                            let out = run_case(f, &mut g);
                            slots[w].case.store(0, Ordering::Relaxed);
                            mark_open(w + 1, 0);
                            st.evals += 1;
                            for (k, v) in &g.classes {
                                *st.classes.entry(format!("{sname}:{k}")).or_insert(0) += v.min(&1);
                            }
                            if g.nontrivial {
                                let mut b = Vec::with_capacity(g.tape.len() * 8);
                                for x in &g.tape {
                                    b.extend_from_slice(&x.to_le_bytes());
                                }
                                st.nontrivial.insert(hash64(&b) ^ hash64(sname.as_bytes()));
                            }
                            match out {
                                Outcome::Pass => {}
                                Outcome::HarnessBug(m) => {
                                    *harness_bug.lock().unwrap() =
                                        Some(format!("{sname} case {i}: {m}"));
                                }
                                Outcome::Fail(e) => {
                                    if known_keys.contains(&e.key) {
                                        *st.known.entry(e.key.clone()).or_insert(0) += 1;
                                    } else {
                                        min_fail.fetch_min(i, Ordering::Relaxed);
                                        let mut b = best_fail.lock().unwrap();
                                        if b.as_ref().map_or(true, |x| x.0 > i) {
                                            *b = Some((i, g.tape.clone(), e));
                                        }
                                    }
                                }
                            }
                        }
                        st
                    })
                    .unwrap(),
            );
        }
        let mut sub_stat = (0u64, 0u64);
        for h in handles {
            let st = h.join().expect("worker");
            sub_stat.0 += st.evals;
            sub_stat.1 += st.nontrivial.len() as u64;
            stats.evals += st.evals;
            stats.nontrivial.extend(st.nontrivial);
            for (k, v) in st.classes {
                *stats.classes.entry(k).or_insert(0) += v;
            }
            for (k, v) in st.known {
                *stats.known.entry(k).or_insert(0) += v;
            }
        }
        done.store(true, Ordering::Relaxed);
        let _ = wd.join();
        per_sub.insert(sub.name.to_string(), sub_stat);

        if let Some(m) = harness_bug.lock().unwrap().clone() {
            ctx.say(&format!("HARNESS-ERROR {} {m}", p.id));
            write_evidence(ctx, p, &stats, &per_sub, t0.elapsed().as_secs_f64(), 0);
            return 2;
        }
        let bf = best_fail.lock().unwrap().take();
        if let Some((i, tape, first)) = bf {
            // a crash while shrinking is a crash of (a part of) this case
            mark_open(1, i + 1);
            let small = shrink(sub.f, size, tape, &known_keys, 4000);
            let mut g = G::replay(&small, size, true);
            let (small, trace, e) = match run_case(sub.f, &mut g) {
                Outcome::Fail(e) => (small, g.trace, e),
                // schedule-dependent failure: keep the original message
                _ => (small, g.trace, first.clone()),
            };
            let path = write_replay(
                ctx,
                p,
                serde_json::json!({
                    "property": p.id, "sub": sub.name, "size": size, "tape": small,
                    "key": e.key, "message": e.msg, "trace": trace,
                    "found": {"seed": ctx.seed, "tier": ctx.tier, "case": i, "message": first.msg},
                }),
            );
            stats
                .samples
                .push(serde_json::json!({"violation": e.msg, "trace": trace}));
            write_evidence(ctx, p, &stats, &per_sub, t0.elapsed().as_secs_f64(), 1);
            ctx.say(&format!(
                "{}/{} case {i} [{}]: {}",
                p.id, sub.name, e.key, e.msg
            ));
            for l in trace.iter().take(60) {
                ctx.say(&format!("    {l}"));
            }
            ctx.say(&format!("VIOLATION property={} replay={path}", p.id));
            return 1;
        }
        // samples: re-run the first non-trivial cases with tracing on
        let mut got = 0;
        for i in 0..n.min(40) {
            if got >= 2 {
                break;
            }
            let mut g = G::random(case_seed(ctx.seed, p.id, sub.name, i), size, true);
            let _ = run_case(sub.f, &mut g);
            if g.nontrivial && !g.trace.is_empty() {
                got += 1;
                let mut t = g.trace;
                if t.len() > 40 {
                    let more = t.len() - 40;
                    t.truncate(40);
                    t.push(format!("... {more} more steps"));
                }
                stats
                    .samples
                    .push(serde_json::json!({"sub": sub.name, "case": i, "trace": t}));
            }
        }
    }
    for e in known.entries.iter().filter(|e| e.0 == p.id) {
        ctx.say(&format!(
            "KNOWN-FINDING: property={} {} [{}; hit {} times in this run]",
            p.id,
            e.2,
            e.1,
            stats.known.get(&e.1).copied().unwrap_or(0)
        ));
    }
    let wall = t0.elapsed().as_secs_f64();
    write_evidence(ctx, p, &stats, &per_sub, wall, 0);
    let mut s = String::new();
    let _ = write!(
        s,
        "OK property={} tier={} seed={} evaluations={} distinct_nontrivial={} wall={:.1}s",
        p.id,
        ctx.tier,
        ctx.seed,
        stats.evals,
        stats.nontrivial.len(),
        wall
    );
    ctx.say(&s);
    0
}

fn replay_file(ctx: &Ctx, props: &[Prop], path: &str) -> i32 {
    let v: serde_json::Value =
        serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("json");
    let p = props
        .iter()
        .find(|p| Some(p.id) == v["property"].as_str())
        .expect("property of the replay file");
    let sub = p
        .subs
        .iter()
        .find(|s| Some(s.name) == v["sub"].as_str())
        .expect("sub check of the replay file");
    let size = v["size"].as_u64().unwrap_or(1);
    let mut g = if let Some(t) = v["tape"].as_array() {
        let tape: Vec<u64> = t.iter().map(|x| x.as_u64().unwrap()).collect();
        G::replay(&tape, size, true)
    } else {
        G::random(
            case_seed(
                v["seed"].as_u64().unwrap(),
                p.id,
                sub.name,
                v["case"].as_u64().unwrap(),
            ),
            size,
            true,
        )
    };
    let out = run_case(sub.f, &mut g);
    for l in &g.trace {
        ctx.say(&format!("    {l}"));
    }
    match out {
        Outcome::Pass => {
            ctx.say("replay: the property holds on this case");
            0
        }
        Outcome::HarnessBug(m) => {
            ctx.say(&m);
            2
        }
        Outcome::Fail(e) => {
            ctx.say(&format!("[{}] {}", e.key, e.msg));
            ctx.say(&format!("VIOLATION property={} replay={path}", p.id));
            1
        }
    }
}

/// Dump the tapes of the first n cases (used to seed the coverage-guided fuzzer).
pub fn tapes(p: &Prop, sub: &Sub, seed: u64, n: u64) -> Vec<Vec<u64>> {
    (0..n)
        .map(|i| {
            let mut g = G::random(case_seed(seed, p.id, sub.name, i), 1, false);
            let _ = run_case(sub.f, &mut g);
            g.tape
        })
        .collect()
}

pub enum FuzzOutcome {
    Pass,
    Fail(Fail),
    HarnessBug(String),
}

pub fn run_tape(f: PropFn, tape: &[u64], size: u64) -> FuzzOutcome {
    let mut g = G::replay(tape, size, false);
    match run_case(f, &mut g) {
        Outcome::Pass => FuzzOutcome::Pass,
        Outcome::Fail(e) => FuzzOutcome::Fail(e),
        Outcome::HarnessBug(m) => FuzzOutcome::HarnessBug(m),
    }
}

pub fn init() {
    install_panic_hook();
}

fn child_status(
    args: &[String],
    open: Option<&str>,
    secs: u64,
) -> Option<std::process::ExitStatus> {
    use std::os::unix::process::CommandExt;
    let mut c = std::process::Command::new(std::env::current_exe().ok()?);
    c.args(args).env("PBT_CHILD", "1");
    if let Some(o) = open {
        c.env("PBT_OPEN_CASES", o);
    } else {
        c.stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null());
    }
    unsafe {
        c.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            // memory without bound is a failed allocation, not the end of the sandbox
            let lim = libc::rlimit {
                rlim_cur: 24 << 30,
                rlim_max: 24 << 30,
            };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            Ok(())
        });
    }
    let mut child = c.spawn().ok()?;
    let t0 = Instant::now();
    loop {
        match child.try_wait().ok()? {
            Some(st) => return Some(st),
            None if secs > 0 && t0.elapsed() > Duration::from_secs(secs) => {
                let _ = child.kill();
                let _ = child.wait();
                return None;
            }
            None => std::thread::sleep(Duration::from_millis(5)),
        }
    }
}

/// A case can end the whole process (stack overflow, abort in a destructor, failed allocation).
/// The cases run in a child process; when it dies from such a signal, the cases that were open are
/// run again, each alone, and one that kills its process again is a violation.
fn supervise(ctx: &Arc<Ctx>, p: &Prop, args: &[String]) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let dir = format!("{}/replays", ctx.root);
    let _ = std::fs::create_dir_all(&dir);
    let open = format!("{dir}/.open-{}-{}", p.id, std::process::id());
    if std::fs::write(&open, vec![0u8; OPEN_WORDS * 8]).is_err() {
        return 3;
    }
    let st = child_status(args, Some(&open), 0);
    let words: Vec<u64> = std::fs::read(&open)
        .unwrap_or_default()
        .chunks_exact(8)
        .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
        .collect();
    let _ = std::fs::remove_file(&open);
    let Some(st) = st else {
        return 3;
    };
    if let Some(c) = st.code() {
        return c;
    }
    let sig = st.signal().unwrap_or(0);
    let crash = |s: i32| {
        [
            libc::SIGABRT,
            libc::SIGSEGV,
            libc::SIGBUS,
            libc::SIGILL,
            libc::SIGFPE,
        ]
        .contains(&s)
    };
    if !crash(sig) || words.is_empty() || words[0] == 0 {
        ctx.say(&format!("HARNESS-ERROR {} ended by signal {sig}", p.id));
        return 3;
    }
    let sub = &p.subs[words[0] as usize - 1];
    let size = if ctx.tier == "thorough" { 2 } else { 1 };
    let mut cases: Vec<u64> = words[1..]
        .iter()
        .filter(|c| **c != 0)
        .map(|c| c - 1)
        .collect();
    cases.sort();
    cases.dedup();
    for case in cases {
        let path = format!("{dir}/{}-crash-{}-{case}.json", p.id, sub.name);
        let why = format!("case ends the process with signal {sig}");
        let body = serde_json::json!({
            "property": p.id, "sub": sub.name, "tier": ctx.tier, "size": size,
            "seed": ctx.seed, "case": case, "message": why,
        });
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
        let again = child_status(
            &["bin".into(), "replay".into(), path.clone()][1..],
            None,
            200,
        );
        if again.and_then(|s| s.signal()).map_or(false, crash) {
            let ev = serde_json::json!({
                "property": p.id, "tier": ctx.tier, "seed": ctx.seed, "level": "exploration",
                "coverage": {"evaluations": case + 1, "distinct_nontrivial": 0,
                    "rule": "run cut short by a crash", "samples": [why.clone()]},
                "wall_s": 0.0, "violations": 1,
            });
            let _ = std::fs::create_dir_all(format!("{}/evidence", ctx.root));
            let _ = std::fs::write(
                format!("{}/evidence/{}.json", ctx.root, p.id),
                serde_json::to_string_pretty(&ev).unwrap(),
            );
            ctx.say(&format!("{}/{} case {case}: {why}", p.id, sub.name));
            ctx.say(&format!("VIOLATION property={} replay={path}", p.id));
            return 1;
        }
        let _ = std::fs::remove_file(&path);
    }
    ctx.say(&format!(
        "HARNESS-ERROR {} ended by signal {sig}, which no single case reproduces",
        p.id
    ));
    3
}

/// `BIN list`, `BIN run ID --tier quick|thorough [--seed N] [--sub NAME] [--scale X]`, `BIN replay FILE`
pub fn main(props: Vec<Prop>) -> ! {
    // the code under test prints to stdout on hot paths: keep the real stdout for our own lines
    let supervisor =
        std::env::args().nth(1).as_deref() == Some("run") && std::env::var("PBT_CHILD").is_err();
    let out = unsafe {
        use std::os::fd::FromRawFd;
        let keep = libc::dup(1);
        let null = if supervisor {
            -1
        } else {
            libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY)
        };
        if null >= 0 {
            libc::dup2(null, 1);
        }
        std::fs::File::from_raw_fd(keep)
    };
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let opt = |name: &str| {
        args.iter()
            .position(|a| a == name)
            .and_then(|i| args.get(i + 1).cloned())
    };
    let ctx = Arc::new(Ctx {
        root: std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()),
        tier: opt("--tier").unwrap_or_else(|| "quick".into()),
        seed: opt("--seed")
            .or_else(|| std::env::var("VERIF_SEED").ok())
            .and_then(|s| s.trim().parse().ok())
            .unwrap_or(1),
        scale: opt("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0),
        out,
    });
    let rc = match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in &props {
                ctx.say(&format!(
                    "{} {}",
                    p.id,
                    p.subs.iter().map(|s| s.name).collect::<Vec<_>>().join(",")
                ));
            }
            0
        }
        Some("run") => {
            let id = args.get(2).expect("property id");
            match props.iter().find(|p| p.id == id) {
                Some(p) if std::env::var("PBT_CHILD").is_err() => supervise(&ctx, p, &args[1..]),
                Some(p) => run_prop(&ctx, p, opt("--sub").as_deref()),
                None => {
                    ctx.say(&format!("unknown property {id}"));
                    2
                }
            }
        }
        Some("replay") => replay_file(&ctx, &props, args.get(2).expect("replay file")),
        _ => {
            ctx.say(
                "usage: list | run ID [--tier T] [--seed N] [--sub S] [--scale X] | replay FILE",
            );
            2
        }
    };
    let _ = AtomicUsize::new(0);
    std::process::exit(rc)
}
