//! Case runner: deterministic seeding, library-call guard (panic and runaway attribution), observation counters.

use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicU8, AtomicUsize, Ordering};
use std::sync::Mutex;

use crate::alloc;

// ---------------------------------------------------------------------------------------------------------------
// Random numbers

#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    pub fn u32(&mut self) -> u32 {
        self.u64() as u32
    }
    /// Uniform in `0 .. n` (0 if n is 0).
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.u64() % n
        }
    }
    /// Uniform in `lo ..= hi`.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.f64() < p
    }
    pub fn f64(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len() as u64) as usize]
    }
    /// Roughly log-uniform in `lo ..= hi`, lo >= 1.
    pub fn log(&mut self, lo: f64, hi: f64) -> f64 {
        (lo.ln() + (hi.ln() - lo.ln()) * self.f64()).exp()
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.u64())
    }
}

pub fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

// ---------------------------------------------------------------------------------------------------------------
// Edge instrumentation of the library

const MAX_EDGES: usize = 1 << 16;
static EDGE_COUNT: AtomicUsize = AtomicUsize::new(0);
static EDGE_HIT: [AtomicU8; MAX_EDGES] = [const { AtomicU8::new(0) }; MAX_EDGES];

thread_local! {
    static EDGES: Cell<u64> = const { Cell::new(0) };
    static BUDGET: Cell<u64> = const { Cell::new(u64::MAX) };
    static MAX_CALL: Cell<u64> = const { Cell::new(0) };
    static TOTAL_EDGES: Cell<u64> = const { Cell::new(0) };
    static IN_LIB: Cell<bool> = const { Cell::new(false) };
    static CURRENT: RefCell<Current> = const { RefCell::new(Current { scenario: "", index: 0 }) };
    static LAST_PANIC: RefCell<Option<PanicInfo>> = const { RefCell::new(None) };
}

struct Current {
    scenario: &'static str,
    index: u64,
}

#[derive(Clone, Debug)]
pub struct PanicInfo {
    pub message: String,
    pub location: String,
    pub in_lib: bool,
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    while p < stop {
        if *p == 0 {
            let n = EDGE_COUNT.fetch_add(1, Ordering::Relaxed) + 1;
            *p = n.min(MAX_EDGES - 1) as u32;
        }
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    let id = *guard as usize;
    if EDGE_HIT[id].load(Ordering::Relaxed) == 0 {
        EDGE_HIT[id].store(1, Ordering::Relaxed);
    }
    EDGES.with(|e| {
        let n = e.get() + 1;
        e.set(n);
        if n > BUDGET.with(|b| b.get()) {
            e.set(0);
            runaway("work", n);
        }
    });
}

pub fn edges_hit() -> (usize, usize) {
    let total = EDGE_COUNT.load(Ordering::Relaxed).min(MAX_EDGES - 1);
    ((1..=total).filter(|&i| EDGE_HIT[i].load(Ordering::Relaxed) != 0).count(), total)
}

/// Called when a single library call exceeds its work or memory budget: reports the case and ends the process (the
/// library cannot be unwound from here).
pub fn runaway(kind: &str, amount: u64) -> ! {
    alloc::set_tag(alloc::TAG_HARNESS);
    let (scenario, index) = CURRENT.with(|c| {
        let c = c.borrow();
        (c.scenario, c.index)
    });
    let bt = format!("{}", std::backtrace::Backtrace::force_capture());
    let at = bt
        .lines()
        .filter(|l| l.contains("uflow::") && !l.contains("verif"))
        .map(|l| l.trim())
        .take(4)
        .collect::<Vec<_>>()
        .join(" <- ");
    let msg = format!("a single library call did not return within its {} budget ({}): {}", kind, amount, at);
    report_fatal(scenario, index, &msg);
    std::process::exit(77);
}

/// Written by the runner so that `runaway` can report.
static FATAL_PATH: Mutex<String> = Mutex::new(String::new());

pub fn set_fatal_path(p: &str) {
    *FATAL_PATH.lock().unwrap() = p.to_string();
}

fn report_fatal(scenario: &str, index: u64, msg: &str) {
    let path = FATAL_PATH.lock().unwrap().clone();
    let line = format!("{}\t{}\t{}\n", scenario, index, msg.replace(['\n', '\t'], " "));
    eprint!("FATAL {}", line);
    if !path.is_empty() {
        let _ = std::fs::write(path, line);
    }
}

// ---------------------------------------------------------------------------------------------------------------
// Library call guard

struct LibGuard {
    tag: u8,
    was: bool,
}

impl Drop for LibGuard {
    fn drop(&mut self) {
        alloc::set_tag(self.tag);
        IN_LIB.with(|l| l.set(self.was));
        EDGES.with(|e| {
            let n = e.replace(0);
            TOTAL_EDGES.with(|t| t.set(t.get() + n));
            MAX_CALL.with(|m| m.set(m.get().max(n)));
        });
    }
}

/// Runs a call into the library: its allocations are attributed to it, a panic in it is a finding, and its work is
/// bounded by the edge budget.
pub fn lib<R>(f: impl FnOnce() -> R) -> R {
    let _g = LibGuard { was: IN_LIB.with(|l| l.replace(true)), tag: alloc::set_tag(alloc::TAG_LIB) };
    EDGES.with(|e| e.set(0));
    f()
}

struct OutGuard(u8);

impl Drop for OutGuard {
    fn drop(&mut self) {
        alloc::set_tag(self.0);
        IN_LIB.with(|l| l.set(true));
    }
}

/// Runs harness code from a callback made by the library.
pub fn out<R>(f: impl FnOnce() -> R) -> R {
    IN_LIB.with(|l| l.set(false));
    let _g = OutGuard(alloc::set_tag(alloc::TAG_HARNESS));
    f()
}

pub fn set_budget(n: u64) {
    BUDGET.with(|b| b.set(n));
}

pub fn max_call_edges() -> u64 {
    MAX_CALL.with(|m| m.get())
}

pub fn install_panic_hook(verbose: bool) {
    std::panic::set_hook(Box::new(move |info| {
        let tag = alloc::set_tag(alloc::TAG_HARNESS);
        let message = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let location = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let in_lib = IN_LIB.with(|l| l.get());
        if verbose {
            eprintln!("panic (in_lib={}) at {}: {}\n{}", in_lib, location, message, std::backtrace::Backtrace::force_capture());
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(PanicInfo { message, location, in_lib }));
        alloc::set_tag(tag);
    }));
}

// ---------------------------------------------------------------------------------------------------------------
// Case context

pub struct Ctx {
    pub rng: Rng,
    pub thorough: bool,
    pub verbose: bool,
    pub index: u64,
    pub viol: Option<String>,
    pub known: Vec<String>,
    pub obs: BTreeMap<&'static str, u64>,
    pub maxes: BTreeMap<&'static str, u64>,
    pub digest: u64,
    pub nontrivial: bool,
    pub desc: String,
}

impl Ctx {
    pub fn fail(&mut self, msg: impl Into<String>) {
        if self.viol.is_none() {
            let msg = msg.into();
            if self.verbose {
                eprintln!("!! {}", msg);
            }
            self.viol = Some(msg);
        }
    }
    pub fn failed(&self) -> bool {
        self.viol.is_some()
    }
    pub fn count(&mut self, key: &'static str, n: u64) {
        *self.obs.entry(key).or_insert(0) += n;
    }
    pub fn max(&mut self, key: &'static str, n: u64) {
        let e = self.maxes.entry(key).or_insert(0);
        *e = (*e).max(n);
    }
    /// Feeds an observed fact into the digest which identifies the execution.
    pub fn seen(&mut self, x: u64) {
        self.digest = mix(self.digest ^ x);
    }
    pub fn seen_bytes(&mut self, b: &[u8]) {
        let mut h = self.digest ^ b.len() as u64;
        for c in b.chunks(8) {
            let mut w = [0u8; 8];
            w[..c.len()].copy_from_slice(c);
            h = (h ^ u64::from_le_bytes(w)).wrapping_mul(0x100000001b3).rotate_left(29);
        }
        self.digest = mix(h);
    }
}

#[macro_export]
macro_rules! vlog {
    ($ctx:expr, $($arg:tt)*) => { if $ctx.verbose { eprintln!($($arg)*); } };
}

pub struct Scenario {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: fn(&mut Ctx),
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub scenarios: Vec<Scenario>,
    /// Observations without which the run decided nothing.
    pub floors: &'static [(&'static str, u64)],
}

pub enum Outcome {
    Held,
    Violated(String),
    Broken(String),
}

pub struct CaseResult {
    pub outcome: Outcome,
    pub ctx: Ctx,
    pub nanos: u64,
}

static SERIAL: AtomicU64 = AtomicU64::new(1);

pub fn case_seed(prop: &str, scenario: &str, index: u64, seed: u64) -> u64 {
    mix(hash_str(prop) ^ mix(hash_str(scenario) ^ mix(index ^ mix(seed))))
}

pub fn run_case(prop: &'static str, sc: &Scenario, index: u64, seed: u64, thorough: bool, verbose: bool) -> CaseResult {
    let s = case_seed(prop, sc.name, index, seed);
    CURRENT.with(|c| *c.borrow_mut() = Current { scenario: sc.name, index });
    crate::hc::young();
    uflow::verif::time::set_now_ns(0);
    uflow::verif::rand::seed(s);
    uflow::verif::net::reset();
    alloc::begin_case(SERIAL.fetch_add(1, Ordering::Relaxed), 2 << 30);
    set_budget(400_000_000);
    MAX_CALL.with(|m| m.set(0));
    let mut ctx = Ctx {
        rng: Rng::new(s),
        thorough,
        verbose,
        index,
        viol: None,
        known: Vec::new(),
        obs: BTreeMap::new(),
        maxes: BTreeMap::new(),
        digest: 0,
        nontrivial: false,
        desc: String::new(),
    };
    let start = std::time::Instant::now();
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (sc.f)(&mut ctx)));
    alloc::set_tag(alloc::TAG_HARNESS);
    IN_LIB.with(|l| l.set(false));
    set_budget(u64::MAX);
    let nanos = start.elapsed().as_nanos() as u64;
    let edges = MAX_CALL.with(|m| m.get());
    ctx.max("max_edges_in_one_call", edges);
    let outcome = match r {
        Err(_) => {
            let p = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or(PanicInfo {
                message: "?".into(),
                location: "?".into(),
                in_lib: false,
            });
            if p.in_lib {
                Outcome::Violated(format!("library panicked at {}: {}", p.location, p.message))
            } else if let Some(v) = ctx.viol.clone() {
                Outcome::Violated(v)
            } else {
                Outcome::Broken(format!("harness panicked at {}: {}", p.location, p.message))
            }
        }
        Ok(()) => match ctx.viol.clone() {
            Some(v) => Outcome::Violated(v),
            None => match alloc::fault() {
                alloc::Fault::None => Outcome::Held,
                // Allocator faults are only a verdict for the property which is about them
                f if prop == "C19" => Outcome::Violated(format!("allocator contract broken: {:?}", f)),
                _ => Outcome::Held,
            },
        },
    };
    CaseResult { outcome, ctx, nanos }
}

// ---------------------------------------------------------------------------------------------------------------
// Parallel run

pub struct RunArgs {
    pub seed: u64,
    pub thorough: bool,
    pub threads: usize,
    pub first: u64,
    pub wall_s: u64,
    pub out: String,
    pub variant: String,
    pub scale: f64,
    pub only: Option<String>,
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Default)]
struct Totals {
    evaluations: u64,
    nontrivial: std::collections::HashSet<u64>,
    trivial: u64,
    obs: BTreeMap<&'static str, u64>,
    maxes: BTreeMap<&'static str, u64>,
    per_scenario: BTreeMap<&'static str, (u64, u64)>,
    samples: Vec<(String, u64, String)>,
    violations: Vec<(String, u64, String)>,
    known: BTreeMap<String, u64>,
    broken: Vec<(String, u64, String)>,
    skipped: u64,
}

pub fn run(prop: &'static Property, args: &RunArgs) -> i32 {
    set_fatal_path(&format!("{}.fatal", args.out));
    let _ = std::fs::remove_file(format!("{}.fatal", args.out));
    // Interleave the scenarios so that a wall cap cuts all of them alike
    let mut work: Vec<(f64, usize, u64)> = Vec::new();
    for (si, sc) in prop.scenarios.iter().enumerate() {
        if let Some(o) = &args.only {
            if o != sc.name {
                continue;
            }
        }
        let n = if args.thorough { sc.thorough } else { sc.quick };
        let n = if n == 0 { 0 } else { ((n as f64 * args.scale).ceil() as u64).max(1) };
        for i in 0..n {
            work.push(((i as f64 + 0.5) / n as f64, si, args.first * n + i));
        }
    }
    work.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let totals = Mutex::new(Totals::default());
    let start = std::time::Instant::now();
    let progress: Vec<std::fs::File> =
        (0..args.threads).map(|t| std::fs::File::create(format!("{}.p{}", args.out, t)).expect("progress file")).collect();
    std::thread::scope(|scope| {
        for t in 0..args.threads {
            let (next, stop, totals, work, progress) = (&next, &stop, &totals, &work, &progress);
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(scope, move || {
                    let mut local = Totals::default();
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= work.len() || stop.load(Ordering::Relaxed) {
                            break;
                        }
                        if start.elapsed().as_secs() >= args.wall_s {
                            local.skipped += 1;
                            continue;
                        }
                        let (_, si, index) = work[i];
                        let sc = &prop.scenarios[si];
                        use std::os::unix::fs::FileExt;
                        let _ = progress[t].write_at(format!("{:<24}\t{:>20}\n", sc.name, index).as_bytes(), 0);
                        let r = run_case(prop.id, sc, index, args.seed, args.thorough, false);
                        local.evaluations += 1;
                        let e = local.per_scenario.entry(sc.name).or_insert((0, 0));
                        e.0 += 1;
                        e.1 += r.nanos;
                        for (k, v) in &r.ctx.obs {
                            *local.obs.entry(k).or_insert(0) += v;
                        }
                        for (k, v) in &r.ctx.maxes {
                            let m = local.maxes.entry(k).or_insert(0);
                            *m = (*m).max(*v);
                        }
                        if r.ctx.nontrivial {
                            local.nontrivial.insert(mix(r.ctx.digest ^ hash_str(sc.name)));
                        } else {
                            local.trivial += 1;
                        }
                        for k in r.ctx.known {
                            *local.known.entry(k).or_insert(0) += 1;
                        }
                        if e.0 == 1 && local.samples.len() < 6 {
                            local.samples.push((sc.name.into(), index, r.ctx.desc.chars().take(300).collect()));
                        }
                        match r.outcome {
                            Outcome::Held => (),
                            Outcome::Violated(m) => {
                                local.violations.push((sc.name.into(), index, m));
                                if local.violations.len() >= 3 {
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                            Outcome::Broken(m) => {
                                local.broken.push((sc.name.into(), index, m));
                                if local.broken.len() >= 3 {
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                        }
                    }
                    let _ = progress[t].set_len(0);
                    let mut g = totals.lock().unwrap();
                    g.evaluations += local.evaluations;
                    g.trivial += local.trivial;
                    g.skipped += local.skipped;
                    g.nontrivial.extend(local.nontrivial);
                    for (k, v) in local.obs {
                        *g.obs.entry(k).or_insert(0) += v;
                    }
                    for (k, v) in local.maxes {
                        let m = g.maxes.entry(k).or_insert(0);
                        *m = (*m).max(v);
                    }
                    for (k, v) in local.per_scenario {
                        let e = g.per_scenario.entry(k).or_insert((0, 0));
                        e.0 += v.0;
                        e.1 += v.1;
                    }
                    for (k, v) in local.known {
                        *g.known.entry(k).or_insert(0) += v;
                    }
                    g.samples.extend(local.samples);
                    g.violations.extend(local.violations);
                    g.broken.extend(local.broken);
                })
                .unwrap();
        }
    });
    let mut t = totals.into_inner().unwrap();
    t.samples.sort();
    t.violations.sort_by(|a, b| (&a.0, a.1).cmp(&(&b.0, b.1)));
    let mut lacking = Vec::new();
    if args.only.is_none() {
        for (k, n) in prop.floors {
            if t.obs.get(k).copied().unwrap_or(0) < *n {
                lacking.push(format!("{} = {} < {}", k, t.obs.get(k).copied().unwrap_or(0), n));
            }
        }
    }
    let (hit, total) = edges_hit();
    let list3 = |v: &Vec<(String, u64, String)>| {
        v.iter()
            .take(8)
            .map(|(s, i, m)| format!("{{\"scenario\":{},\"index\":{},\"text\":{}}}", json_str(s), i, json_str(m)))
            .collect::<Vec<_>>()
            .join(",")
    };
    let map = |m: &BTreeMap<&'static str, u64>| {
        m.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect::<Vec<_>>().join(",")
    };
    let mut samples: Vec<(String, u64, String)> = Vec::new();
    for s in &t.samples {
        if samples.iter().filter(|x| x.0 == s.0).count() < 2 {
            samples.push(s.clone());
        }
    }
    samples.truncate(12);
    let json = format!(
        "{{\"property\":{},\"variant\":{},\"rule\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"trivial\":{},\"skipped\":{},\"edges_hit\":{},\"edges_total\":{},\"observations\":{{{}}},\"maxima\":{{{}}},\"scenarios\":{{{}}},\"samples\":[{}],\"violations\":[{}],\"n_violations\":{},\"broken\":[{}],\"known\":{{{}}},\"lacking\":[{}],\"wall_s\":{:.3}}}\n",
        json_str(prop.id),
        json_str(&args.variant),
        json_str(prop.rule),
        t.evaluations,
        t.nontrivial.len(),
        t.trivial,
        t.skipped,
        hit,
        total,
        map(&t.obs),
        map(&t.maxes),
        t.per_scenario
            .iter()
            .map(|(k, v)| format!("{}:{{\"cases\":{},\"cpu_s\":{:.2}}}", json_str(k), v.0, v.1 as f64 / 1e9))
            .collect::<Vec<_>>()
            .join(","),
        samples
            .iter()
            .map(|(s, i, m)| format!("{{\"scenario\":{},\"index\":{},\"text\":{}}}", json_str(s), i, json_str(m)))
            .collect::<Vec<_>>()
            .join(","),
        list3(&t.violations),
        t.violations.len(),
        list3(&t.broken),
        t.known.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect::<Vec<_>>().join(","),
        lacking.iter().map(|l| json_str(l)).collect::<Vec<_>>().join(","),
        start.elapsed().as_secs_f64(),
    );
    std::fs::write(&args.out, &json).expect("write result");
    for t in 0..args.threads {
        let _ = std::fs::remove_file(format!("{}.p{}", args.out, t));
    }
    if !t.violations.is_empty() {
        1
    } else if !t.broken.is_empty() || !lacking.is_empty() {
        2
    } else {
        0
    }
}
