//! Runs the sub-checks of one property: proptest drives the choice tapes,
//! failures are shrunk and saved as replay files, and what was covered goes to
//! the evidence file.
//!
//! The work is done in a child process ("worker"), so that code under test that
//! overflows the stack or allocates without bound is a finding like any other.

use crate::tape::Tape;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// Not a failure; did the case say anything?
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Status {
    /// The case could not be used.
    Discard,
    Trivial,
    NonTrivial,
}

pub fn nontrivial(yes: bool) -> Verdict {
    Ok(if yes {
        Status::NonTrivial
    } else {
        Status::Trivial
    })
}

/// `Err` is a violation, described.
pub type Verdict = Result<Status, String>;

/// What a check tells the runner about the case it is looking at.
pub struct Case {
    want_show: bool,
    shown: Option<String>,
    key: std::collections::hash_map::DefaultHasher,
    keyed: bool,
    classes: Vec<&'static str>,
    /// For cases that stand for many: how many.
    pub weight: u64,
    pub nontrivial_weight: u64,
    pub tier: Tier,
}

impl Case {
    fn new(want_show: bool, tier: Tier) -> Case {
        Case {
            want_show,
            shown: None,
            key: std::collections::hash_map::DefaultHasher::new(),
            keyed: false,
            classes: vec![],
            weight: 1,
            nontrivial_weight: 1,
            tier,
        }
    }

    /// Describe the case, if anybody wants to know.
    pub fn show(&mut self, f: impl FnOnce() -> String) {
        if self.want_show {
            self.shown = Some(f());
        }
    }

    /// What makes this case different from others.
    pub fn key(&mut self, k: &impl Hash) {
        k.hash(&mut self.key);
        self.keyed = true;
    }

    pub fn class(&mut self, name: &'static str) {
        self.classes.push(name);
    }

    pub fn class_if(&mut self, yes: bool, name: &'static str) {
        if yes {
            self.classes.push(name);
        }
    }
}

pub enum Body {
    /// Random cases: (quick count, thorough count, longest tape).
    Random(usize, usize, usize, fn(&mut Tape, &mut Case) -> Verdict),
    /// Every case with an index below the given number.
    Each(fn(Tier) -> usize, fn(usize, &mut Case) -> Verdict),
    /// Does its own looping.
    Whole(fn(&mut Whole)),
}

pub struct Sub {
    pub name: &'static str,
    pub body: Body,
}

pub struct Check {
    pub id: &'static str,
    /// How cases are made and what makes one non-trivial.
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
}

/// For checks that batch their cases (such as compiling them).
pub struct Whole<'a> {
    pub check: &'static str,
    pub sub: &'static str,
    pub tier: Tier,
    pub seed: u64,
    stats: &'a mut Stats,
    failure: Option<Failure>,
    /// When replaying: the saved case.
    pub replay: Option<Value>,
    /// Something went wrong that is nobody's fault.
    pub broken: Option<String>,
}

impl Whole<'_> {
    pub fn count(&mut self, status: Status, key: &impl Hash, show: impl FnOnce() -> String) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        self.sub.hash(&mut h);
        key.hash(&mut h);
        let shown = (self.stats.samples.len() < 6).then(show);
        self.stats
            .add(self.sub, status, Some(h.finish()), 1, 1, &[], shown);
    }
    pub fn class(&mut self, name: &'static str) {
        *self.stats.classes.entry(name.to_string()).or_insert(0) += 1;
    }
    pub fn fail(&mut self, message: String, data: Value) {
        if self.failure.is_none() {
            self.failure = Some(Failure {
                sub: self.sub.to_string(),
                message,
                data,
            });
        }
    }
    pub fn failed(&self) -> bool {
        self.failure.is_some()
    }
}

#[derive(Clone)]
pub struct Failure {
    sub: String,
    message: String,
    data: Value,
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    undistinguished: u64,
    discarded: u64,
    classes: BTreeMap<String, u64>,
    per_sub: BTreeMap<String, (u64, u64)>,
    samples: Vec<(String, String)>,
}

impl Stats {
    fn add(
        &mut self,
        sub: &str,
        status: Status,
        key: Option<u64>,
        weight: u64,
        nt_weight: u64,
        classes: &[&'static str],
        shown: Option<String>,
    ) {
        if status == Status::Discard {
            self.discarded += 1;
            return;
        }
        self.evaluations += weight;
        let e = self.per_sub.entry(sub.to_string()).or_insert((0, 0));
        e.0 += weight;
        for c in classes {
            *self.classes.entry(c.to_string()).or_insert(0) += 1;
        }
        if status == Status::NonTrivial {
            let new = match key {
                Some(k) => self.distinct.insert(k),
                None => false,
            };
            if new {
                self.nontrivial += nt_weight;
                e.1 += nt_weight;
            }
            if let Some(s) = shown {
                self.samples.push((sub.to_string(), s));
            }
        }
    }

    fn merge(&mut self, other: Stats) {
        self.evaluations += other.evaluations;
        self.discarded += other.discarded;
        self.undistinguished += other.undistinguished;
        // Cases that stand for many are distinct by construction; for the
        // others count again, since shards can repeat each other.
        let extra = other.nontrivial - other.distinct.len().min(other.nontrivial as usize) as u64;
        let before = self.distinct.len();
        self.distinct.extend(other.distinct);
        let added = (self.distinct.len() - before) as u64;
        self.nontrivial += added + extra;
        for (k, v) in other.classes {
            *self.classes.entry(k).or_insert(0) += v;
        }
        for (k, (a, b)) in other.per_sub {
            let e = self.per_sub.entry(k).or_insert((0, 0));
            e.0 += a;
            e.1 += b;
        }
        self.samples.extend(other.samples);
    }
}

const SHARDS: usize = 8;

thread_local! {
    static CURRENT: RefCell<Option<std::fs::File>> = const { RefCell::new(None) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Where the most recent panic on this thread was.
pub fn last_panic() -> String {
    LAST_PANIC.with(|l| l.borrow().clone())
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let text = format!("{info}");
        LAST_PANIC.with(|l| *l.borrow_mut() = text);
    }));
}

// --- Cases that do not end

/// What a thread that runs cases is at.
#[derive(Default)]
pub struct Slot {
    /// Its CPU clock, 0 if it does not run cases.
    clock: AtomicI32,
    /// How many it has begun.
    begun: AtomicU64,
}

extern "C" {
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(thread: usize, clock: *mut i32) -> i32;
    fn clock_gettime(clock: i32, time: *mut [i64; 2]) -> i32;
}

fn my_clock() -> i32 {
    let mut id = 0;
    match unsafe { pthread_getcpuclockid(pthread_self(), &mut id) } {
        0 => id,
        _ => 0,
    }
}

/// Seconds of CPU time.
fn read_clock(id: i32) -> Option<i64> {
    let mut t = [0; 2];
    (unsafe { clock_gettime(id, &mut t) } == 0).then_some(t[0])
}

thread_local! {
    static SLOT: RefCell<Option<Arc<Slot>>> = const { RefCell::new(None) };
}

/// Run `f` on a thread of its own, with a stack of that size, as part of the
/// present case.
pub fn on_thread<T: Send>(stack: usize, f: impl FnOnce() -> T + Send) -> std::thread::Result<T> {
    let slot = SLOT.with(|s| s.borrow().clone());
    let old = slot.as_ref().map_or(0, |s| s.clock.load(Ordering::SeqCst));
    let inner = slot.clone();
    let r = std::thread::scope(|s| {
        let h = std::thread::Builder::new()
            .stack_size(stack)
            .spawn_scoped(s, move || {
                if let Some(s) = &inner {
                    s.clock.store(my_clock(), Ordering::SeqCst);
                    s.begun.fetch_add(1, Ordering::SeqCst);
                }
                with_memory_budget(f)
            });
        h.unwrap().join()
    });
    if let Some(s) = &slot {
        s.clock.store(old, Ordering::SeqCst);
        s.begun.fetch_add(1, Ordering::SeqCst);
    }
    r
}

/// CPU time after which a case is taken to have no end. Cases take less than a
/// thousandth of it; large ones a twentieth.
fn case_seconds(tier: Tier) -> i64 {
    if tier == Tier::Quick {
        150
    } else {
        1800
    }
}

/// Wait until `done`, or until one of the slots has been in the same case for
/// too long: then say which.
fn watch(slots: &[Arc<Slot>], done: &AtomicBool, tier: Tier) -> Option<usize> {
    let mut since: Vec<(u64, i32, i64)> = vec![(0, 0, 0); slots.len()];
    let mut n = 0;
    while !done.load(Ordering::SeqCst) {
        std::thread::sleep(std::time::Duration::from_millis(20));
        n += 1;
        if n % 50 > 0 {
            continue;
        }
        for (i, s) in slots.iter().enumerate() {
            let (begun, clock) = (
                s.begun.load(Ordering::SeqCst),
                s.clock.load(Ordering::SeqCst),
            );
            let Some(now) = Some(clock).filter(|c| *c != 0).and_then(read_clock) else {
                since[i] = (0, 0, 0);
                continue;
            };
            if since[i].0 != begun || since[i].1 != clock {
                since[i] = (begun, clock, now);
            } else if now - since[i].2 > case_seconds(tier) {
                return Some(i);
            }
        }
    }
    None
}

fn endless(tier: Tier) -> String {
    format!(
        "does not end: one case has used over {} s of CPU time",
        case_seconds(tier)
    )
}

/// Leave a note about the case we are about to run, for the supervisor.
fn note_current(sub: usize, kind: u32, data: &[u32]) {
    use std::os::unix::fs::FileExt;
    SLOT.with(|s| {
        if let Some(s) = &*s.borrow() {
            s.begun.fetch_add(1, Ordering::Relaxed);
        }
    });
    CURRENT.with(|c| {
        if let Some(f) = &*c.borrow() {
            let mut buf = Vec::with_capacity(16 + data.len() * 4);
            for x in [1u32, sub as u32, kind, data.len() as u32] {
                buf.extend(x.to_le_bytes());
            }
            for x in data {
                buf.extend(x.to_le_bytes());
            }
            let _ = f.write_all_at(&buf, 0);
        }
    })
}

fn read_note(path: &Path) -> Option<(usize, u32, Vec<u32>)> {
    let b = std::fs::read(path).ok()?;
    let words: Vec<u32> = b
        .chunks_exact(4)
        .map(|c| u32::from_le_bytes(c.try_into().unwrap()))
        .collect();
    if words.len() < 4 || words[0] != 1 {
        return None;
    }
    let n = words[3] as usize;
    Some((words[1] as usize, words[2], words.get(4..4 + n)?.to_vec()))
}

// --- Memory budget

/// A global allocator that ends the process when one case uses an absurd amount
/// of memory. Measured in bytes, so it does not depend on timing.
pub struct Budgeted;

thread_local! {
    static IN_USE: Cell<isize> = const { Cell::new(0) };
    static ALLOWED: Cell<isize> = const { Cell::new(isize::MAX) };
}

const CASE_MEMORY: isize = 3 << 29; // 1.5 GB

fn charge(n: isize) {
    let _ = IN_USE.try_with(|u| {
        let now = u.get() + n;
        u.set(now);
        if n > 0 && now > ALLOWED.try_with(|a| a.get()).unwrap_or(isize::MAX) {
            let _ = ALLOWED.try_with(|a| a.set(isize::MAX));
            let _ = std::io::stderr().write_all(b"a single case used over 1.5 GB of memory\n");
            std::process::abort();
        }
    });
}

unsafe impl std::alloc::GlobalAlloc for Budgeted {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        charge(l.size() as isize);
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        charge(-(l.size() as isize));
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, new: usize) -> *mut u8 {
        charge(new as isize - l.size() as isize);
        std::alloc::System.realloc(p, l, new)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        charge(l.size() as isize);
        std::alloc::System.alloc_zeroed(l)
    }
}

/// Bytes allocated by this thread and not freed by it (negative if it has freed
/// more, for other threads).
pub fn memory_in_use() -> isize {
    IN_USE.with(|u| u.get())
}

fn with_memory_budget<T>(f: impl FnOnce() -> T) -> T {
    let before = IN_USE.with(|u| u.get());
    ALLOWED.with(|a| a.set(before.saturating_add(CASE_MEMORY)));
    let r = f();
    ALLOWED.with(|a| a.set(isize::MAX));
    r
}

fn run_body(f: impl FnOnce(&mut Case) -> Verdict, case: &mut Case) -> Verdict {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        with_memory_budget(|| f(case))
    })) {
        Ok(v) => v,
        Err(_) => {
            ALLOWED.with(|a| a.set(isize::MAX));
            #[cfg(feature = "in-process")]
            crate::erase::set_fuel(u64::MAX);
            Err(format!("panic: {}", last_panic()))
        }
    }
}

fn seed_bytes(seed: u64, check: &str, sub: &str, shard: usize) -> [u8; 32] {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in check
        .bytes()
        .chain(sub.bytes())
        .chain(seed.to_le_bytes())
        .chain([shard as u8])
    {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    let mut out = [0; 32];
    for c in out.chunks_mut(8) {
        h = h.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = h;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        c.copy_from_slice(&(z ^ (z >> 31)).to_le_bytes());
    }
    out
}

/// A proptest runner whose randomness is a function of its arguments only.
pub fn proptest_runner(
    seed: u64,
    check: &str,
    sub: &str,
    shard: usize,
    cases: usize,
) -> TestRunner {
    let config = Config {
        cases: cases as u32,
        failure_persistence: None,
        max_shrink_iters: 6000,
        max_shrink_time: 60_000,
        ..Config::default()
    };
    TestRunner::new_with_rng(
        config,
        TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(seed, check, sub, shard)),
    )
}

pub struct Env {
    pub root: PathBuf,
    pub tier: Tier,
    pub seed: u64,
}

impl Env {
    pub fn from_env(tier: Option<&str>) -> Env {
        let tier = tier
            .map(|s| s.to_string())
            .or_else(|| std::env::var("VERIF_TIER").ok())
            .unwrap_or_default();
        Env {
            root: std::env::var("VERIF_ROOT")
                .unwrap_or_else(|_| "/verif".into())
                .into(),
            tier: if tier == "thorough" {
                Tier::Thorough
            } else {
                Tier::Quick
            },
            seed: std::env::var("VERIF_SEED")
                .ok()
                .and_then(|s| s.trim().parse().ok())
                .unwrap_or(1),
        }
    }
}

enum Job<'a> {
    Random {
        sub: usize,
        shard: usize,
        cases: usize,
        tape: usize,
        f: fn(&mut Tape, &mut Case) -> Verdict,
    },
    Each {
        sub: usize,
        from: usize,
        to: usize,
        f: fn(usize, &mut Case) -> Verdict,
    },
    Whole {
        sub: usize,
        f: fn(&mut Whole),
        phantom: std::marker::PhantomData<&'a ()>,
    },
}

fn sample_wanted(n: u64) -> bool {
    matches!(n, 3 | 40 | 400 | 4000)
}

/// Do the work. Returns the exit code.
/// The numbers of cases given for the quick tier are multiplied by this.
const QUICK_SCALE: usize = 4;

pub fn worker(check: &Check, env: &Env, cur_dir: &Path) -> i32 {
    let started = Instant::now();
    let mut jobs = vec![];
    for (i, sub) in check.subs.iter().enumerate() {
        match sub.body {
            Body::Random(q, th, tape, f) => {
                let total = if env.tier == Tier::Quick {
                    q * QUICK_SCALE
                } else {
                    th
                };
                for shard in 0..SHARDS {
                    jobs.push(Job::Random {
                        sub: i,
                        shard,
                        cases: total.div_ceil(SHARDS),
                        tape,
                        f,
                    });
                }
            }
            Body::Each(n, f) => {
                let n = n(env.tier);
                let step = n.div_ceil(64).max(1);
                let mut at = 0;
                while at < n {
                    jobs.push(Job::Each {
                        sub: i,
                        from: at,
                        to: (at + step).min(n),
                        f,
                    });
                    at += step;
                }
            }
            Body::Whole(f) => jobs.push(Job::Whole {
                sub: i,
                f,
                phantom: std::marker::PhantomData,
            }),
        }
    }
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let stats = Mutex::new(Stats::default());
    let failure: Mutex<Option<Failure>> = Mutex::new(None);
    let broken: Mutex<Option<String>> = Mutex::new(None);
    let threads = std::thread::available_parallelism()
        .map_or(4, |n| n.get())
        .clamp(2, 16);
    let slots: Vec<Arc<Slot>> = (0..threads).map(|_| Arc::default()).collect();
    let done = AtomicBool::new(false);
    std::thread::scope(|scope| {
        scope.spawn(|| {
            let Some(i) = watch(&slots, &done, env.tier) else {
                return;
            };
            // Another failure is as good.
            let f = failure.lock().unwrap().take().or_else(|| {
                let (sub, kind, data) = read_note(&cur_dir.join(format!("{i}")))?;
                Some(Failure {
                    sub: check.subs[sub].name.to_string(),
                    message: endless(env.tier),
                    data: case_json(check, sub, kind, &data),
                })
            });
            let Some(f) = f else {
                eprintln!("check {} does not know what it is at", check.id);
                std::process::exit(2);
            };
            write_evidence(check, env, None, started.elapsed().as_secs_f64(), 1);
            let path = save_replay(check, env, &f);
            println!("{}", f.message);
            println!("VIOLATION property={} replay={}", check.id, path.display());
            std::process::exit(1);
        });
        let mut handles = vec![];
        for thread in 0..threads {
            let slot = slots[thread].clone();
            let (jobs, next, stop, stats, failure, broken) =
                (&jobs, &next, &stop, &stats, &failure, &broken);
            let path = cur_dir.join(format!("{thread}"));
            let h = std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(scope, move || {
                    CURRENT.with(|c| *c.borrow_mut() = std::fs::File::create(&path).ok());
                    SLOT.with(|s| *s.borrow_mut() = Some(slot.clone()));
                    let mut mine = Stats::default();
                    loop {
                        let j = next.fetch_add(1, Ordering::SeqCst);
                        if j >= jobs.len() || stop.load(Ordering::SeqCst) {
                            break;
                        }
                        // Those that run other programs see to the time themselves.
                        let whole = matches!(jobs[j], Job::Whole { .. });
                        slot.clock
                            .store(if whole { 0 } else { my_clock() }, Ordering::SeqCst);
                        if let Some(f) = run_job(check, env, &jobs[j], &mut mine, stop, broken) {
                            stop.store(true, Ordering::SeqCst);
                            let mut slot = failure.lock().unwrap();
                            if slot.is_none() {
                                *slot = Some(f);
                            }
                        }
                    }
                    slot.clock.store(0, Ordering::SeqCst);
                    stats.lock().unwrap().merge(mine);
                    let _ = std::fs::remove_file(&path);
                })
                .unwrap();
            handles.push(h);
        }
        let ended: Vec<_> = handles.into_iter().map(|h| h.join()).collect();
        done.store(true, Ordering::SeqCst);
        for r in ended {
            r.unwrap();
        }
    });
    let stats = stats.into_inner().unwrap();
    let failure = failure.into_inner().unwrap();
    if let Some(b) = broken.into_inner().unwrap() {
        if failure.is_none() {
            eprintln!("check {} could not do its work: {b}", check.id);
            return 2;
        }
    }
    let wall = started.elapsed().as_secs_f64();
    write_evidence(check, env, Some(&stats), wall, failure.is_some() as usize);
    println!(
        "{}: {} cases, {} distinct non-trivial, {} discarded, {:.1} s",
        check.id, stats.evaluations, stats.nontrivial, stats.discarded, wall
    );
    for (k, (a, b)) in &stats.per_sub {
        println!("  {k}: {a} cases, {b} non-trivial");
    }
    for (k, v) in &stats.classes {
        println!("    [{k}] {v}");
    }
    if let Some(f) = failure {
        let path = save_replay(check, env, &f);
        println!("{}", f.message);
        println!("VIOLATION property={} replay={}", check.id, path.display());
        return 1;
    }
    0
}

fn run_job(
    check: &Check,
    env: &Env,
    job: &Job,
    stats: &mut Stats,
    stop: &AtomicBool,
    broken: &Mutex<Option<String>>,
) -> Option<Failure> {
    match *job {
        Job::Random {
            sub,
            shard,
            cases,
            tape: max_tape,
            f,
        } => {
            let name = check.subs[sub].name;
            let mut runner = proptest_runner(env.seed, check.id, name, shard, cases);
            let strategy = proptest::collection::vec(proptest::num::u32::ANY, 0..=max_tape);
            let failed_once = Cell::new(false);
            let stats_cell = RefCell::new(&mut *stats);
            let count = Cell::new(0u64);
            let result = runner.run(&strategy, |tape| {
                if stop.load(Ordering::Relaxed) && !failed_once.get() {
                    return Ok(());
                }
                count.set(count.get() + 1);
                note_current(sub, 0, &tape);
                let want = shard == 0 && sample_wanted(count.get());
                let mut case = Case::new(want, env.tier);
                let v = run_body(|c| f(&mut Tape::new(&tape), c), &mut case);
                match v {
                    Ok(status) => {
                        if !failed_once.get() {
                            stats_cell.borrow_mut().add(
                                name,
                                status,
                                case.keyed.then(|| case.key.finish()),
                                case.weight,
                                case.nontrivial_weight,
                                &case.classes,
                                case.shown,
                            );
                        }
                        Ok(())
                    }
                    Err(m) => {
                        if !failed_once.get() {
                            stats_cell.borrow_mut().evaluations += 1;
                        }
                        failed_once.set(true);
                        Err(TestCaseError::fail(m))
                    }
                }
            });
            match result {
                Ok(()) => None,
                Err(TestError::Fail(_, tape)) => {
                    let (message, shown) = run_once(env, &tape, f);
                    Some(Failure {
                        sub: name.to_string(),
                        message: message.clone(),
                        data: json!({ "tape": tape, "case": shown, "message": message }),
                    })
                }
                Err(TestError::Abort(r)) => {
                    *broken.lock().unwrap() = Some(format!("proptest gave up: {r}"));
                    None
                }
            }
        }
        Job::Each { sub, from, to, f } => {
            let name = check.subs[sub].name;
            for i in from..to {
                if stop.load(Ordering::Relaxed) {
                    return None;
                }
                note_current(sub, 1, &[i as u32]);
                let want = sample_wanted(i as u64);
                let mut case = Case::new(want, env.tier);
                let v = run_body(|c| f(i, c), &mut case);
                match v {
                    Ok(status) => {
                        let key = if case.keyed {
                            case.key.finish()
                        } else {
                            let mut h = std::collections::hash_map::DefaultHasher::new();
                            (name, i).hash(&mut h);
                            h.finish()
                        };
                        stats.add(
                            name,
                            status,
                            Some(key),
                            case.weight,
                            case.nontrivial_weight,
                            &case.classes,
                            case.shown,
                        );
                    }
                    Err(message) => {
                        let mut case = Case::new(true, env.tier);
                        let _ = run_body(|c| f(i, c), &mut case);
                        return Some(Failure {
                            sub: name.to_string(),
                            message: message.clone(),
                            data: json!({ "index": i, "case": case.shown, "message": message }),
                        });
                    }
                }
            }
            None
        }
        Job::Whole { sub, f, .. } => {
            let mut w = Whole {
                check: check.id,
                sub: check.subs[sub].name,
                tier: env.tier,
                seed: env.seed,
                stats,
                failure: None,
                replay: None,
                broken: None,
            };
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut w)));
            if r.is_err() {
                w.broken = Some(format!("panic: {}", last_panic()));
            }
            if let Some(b) = w.broken.take() {
                *broken.lock().unwrap() = Some(b);
            }
            w.failure
        }
    }
}

fn run_once(
    env: &Env,
    tape: &[u32],
    f: fn(&mut Tape, &mut Case) -> Verdict,
) -> (String, Option<String>) {
    let mut case = Case::new(true, env.tier);
    let v = run_body(|c| f(&mut Tape::new(tape), c), &mut case);
    match v {
        Ok(s) => (
            format!("did not fail again ({s:?}): the failure depends on something else"),
            case.shown,
        ),
        Err(m) => (m, case.shown),
    }
}

fn save_replay(check: &Check, env: &Env, f: &Failure) -> PathBuf {
    let dir = env.root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}.json", check.id, f.sub));
    let mut data = f.data.clone();
    data["property"] = json!(check.id);
    data["sub"] = json!(f.sub);
    data["message"] = json!(f.message);
    data["tier"] = json!(if env.tier == Tier::Quick {
        "quick"
    } else {
        "thorough"
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&data).unwrap());
    path
}

/// Run one saved case. Exit code 1 if it still fails.
pub fn replay(check: &Check, env: &Env, data: &Value) -> i32 {
    let Some(sub) = check.subs.iter().find(|s| data["sub"] == s.name) else {
        eprintln!("no such sub-check: {}", data["sub"]);
        return 2;
    };
    let slot: Arc<Slot> = Arc::default();
    let slots = [slot.clone()];
    let tier = env.tier;
    std::thread::spawn(move || {
        if watch(&slots, &AtomicBool::new(false), tier).is_some() {
            println!("{}", endless(tier));
            std::process::exit(1);
        }
    });
    let whole = matches!(sub.body, Body::Whole(_));
    let result = on_big_stack(|| {
        SLOT.with(|s| *s.borrow_mut() = Some(slot.clone()));
        slot.clock
            .store(if whole { 0 } else { my_clock() }, Ordering::SeqCst);
        match sub.body {
            Body::Random(_, _, _, f) => {
                let tape: Vec<u32> = data["tape"]
                    .as_array()
                    .map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0) as u32).collect())
                    .unwrap_or_default();
                let mut case = Case::new(true, env.tier);
                let v = run_body(|c| f(&mut Tape::new(&tape), c), &mut case);
                (v.map(|_| ()), case.shown)
            }
            Body::Each(_, f) => {
                let mut case = Case::new(true, env.tier);
                let i = data["index"].as_u64().unwrap_or(0) as usize;
                let v = run_body(|c| f(i, c), &mut case);
                (v.map(|_| ()), case.shown)
            }
            Body::Whole(f) => {
                let mut stats = Stats::default();
                let mut w = Whole {
                    check: check.id,
                    sub: sub.name,
                    tier: env.tier,
                    seed: env.seed,
                    stats: &mut stats,
                    failure: None,
                    replay: Some(data.clone()),
                    broken: None,
                };
                f(&mut w);
                match w.failure {
                    Some(fl) => (Err(fl.message), None),
                    None => (Ok(()), w.broken),
                }
            }
        }
    });
    if let Some(s) = result.1 {
        println!("{s}");
    }
    match result.0 {
        Ok(()) => {
            println!("no violation");
            0
        }
        Err(m) => {
            println!("{m}");
            1
        }
    }
}

fn on_big_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn_scoped(s, f)
            .unwrap()
            .join()
            .unwrap()
    })
}

fn write_evidence(check: &Check, env: &Env, stats: Option<&Stats>, wall: f64, violations: usize) {
    let dir = env.root.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let empty = Stats::default();
    let s = stats.unwrap_or(&empty);
    let mut samples: Vec<Value> = vec![];
    let mut seen: BTreeMap<&str, usize> = BTreeMap::new();
    for (sub, text) in &s.samples {
        let n = seen.entry(sub).or_insert(0);
        *n += 1;
        if *n <= 4 {
            let short: String = text.chars().take(600).collect();
            samples.push(json!({ "sub": sub, "case": short }));
        }
    }
    let per_sub: serde_json::Map<String, Value> = s
        .per_sub
        .iter()
        .map(|(k, (a, b))| (k.clone(), json!({ "evaluations": a, "nontrivial": b })))
        .collect();
    let evidence = json!({
        "property": check.id,
        "tier": if env.tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": env.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": s.evaluations,
            "distinct_nontrivial": s.nontrivial,
            "rule": check.rule,
            "samples": samples,
            "discarded": s.discarded,
            "sub_checks": per_sub,
            "classes": s.classes,
        },
        "assumptions": check.assumptions,
        "wall_s": (wall * 10.0).round() / 10.0,
        "violations": violations,
    });
    let _ = std::fs::write(
        dir.join(format!("{}.json", check.id)),
        serde_json::to_string_pretty(&evidence).unwrap() + "\n",
    );
}

// --- The supervisor

pub fn supervise(check: &Check, env: &Env) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let started = Instant::now();
    let work = env
        .root
        .join("work")
        .join(format!("{}-{}", check.id, std::process::id()));
    let _ = std::fs::create_dir_all(&work);
    let exe = std::env::current_exe().unwrap();
    let mut child = std::process::Command::new(&exe)
        .arg("worker")
        .arg(check.id)
        .arg(&work)
        .env(
            "VERIF_TIER",
            if env.tier == Tier::Quick {
                "quick"
            } else {
                "thorough"
            },
        )
        .spawn()
        .unwrap();
    // A generous limit, so that a hang is an error and not a verdict.
    let limit = if env.tier == Tier::Quick {
        780
    } else {
        6 * 3600
    };
    let status = loop {
        if let Some(s) = child.try_wait().unwrap() {
            break Some(s);
        }
        if started.elapsed().as_secs() > limit {
            let _ = child.kill();
            let _ = child.wait();
            break None;
        }
        std::thread::sleep(std::time::Duration::from_millis(30));
    };
    let code = match status {
        None => {
            eprintln!("{}: gave up after {limit} s", check.id);
            2
        }
        Some(s) => match (s.code(), s.signal()) {
            (Some(c), _) => c,
            // Crashes that a bug in the code under test can cause.
            (None, Some(sig)) if matches!(sig, 4 | 6 | 7 | 8 | 11) => {
                after_crash(check, env, &work, sig, started)
            }
            (None, sig) => {
                eprintln!("{}: worker ended by signal {sig:?}", check.id);
                2
            }
        },
    };
    let _ = std::fs::remove_dir_all(&work);
    code
}

/// Runs this program with these arguments. None if it takes too long.
pub fn runner_output(args: &[&str], limit: std::time::Duration) -> Option<(i32, String)> {
    use std::io::Read;
    let mut child = std::process::Command::new(std::env::current_exe().unwrap())
        .args(args)
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .unwrap();
    let mut out = child.stdout.take().unwrap();
    let reader = std::thread::spawn(move || {
        let mut text = String::new();
        let _ = out.read_to_string(&mut text);
        text
    });
    let started = Instant::now();
    let status = loop {
        if let Some(s) = child.try_wait().unwrap() {
            break s;
        }
        if started.elapsed() > limit {
            let _ = child.kill();
            let _ = child.wait();
            return None;
        }
        std::thread::sleep(std::time::Duration::from_millis(5));
    };
    Some((status.code().unwrap_or(-1), reader.join().unwrap_or_default()))
}

/// Which of the cases that were running crashes on its own?
fn after_crash(check: &Check, env: &Env, work: &Path, sig: i32, started: Instant) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let crashes = |sub: usize, kind: u32, data: &[u32]| -> bool {
        use std::os::unix::process::ExitStatusExt;
        let v = case_json(check, sub, kind, data);
        let path = work.join("candidate.json");
        std::fs::write(&path, v.to_string()).unwrap();
        let Ok(mut child) = std::process::Command::new(&exe)
            .arg("replay")
            .arg(&path)
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .spawn()
        else {
            return false;
        };
        for _ in 0..6000 {
            if let Some(s) = child.try_wait().unwrap() {
                return matches!(s.signal(), Some(4 | 6 | 7 | 8 | 11));
            }
            std::thread::sleep(std::time::Duration::from_millis(10));
        }
        let _ = child.kill();
        let _ = child.wait();
        false
    };
    let mut notes: Vec<_> = std::fs::read_dir(work)
        .map(|d| d.filter_map(|e| read_note(&e.ok()?.path())).collect())
        .unwrap_or_default();
    notes.sort();
    for (sub, kind, data) in notes {
        if !crashes(sub, kind, &data) {
            continue;
        }
        // Shrink a little: drop the tail, then zero stretches.
        let mut best = data;
        if kind == 0 {
            let mut size = best.len() / 2;
            let mut tries = 0;
            while size > 0 && tries < 60 {
                let mut shorter = best.clone();
                shorter.truncate(best.len() - size);
                tries += 1;
                if crashes(sub, kind, &shorter) {
                    best = shorter;
                } else {
                    size /= 2;
                }
                size = size.min(best.len());
            }
        }
        let f = Failure {
            sub: check.subs[sub].name.to_string(),
            message: format!("the process is killed by signal {sig} (crash, stack overflow or runaway allocation)"),
            data: case_json(check, sub, kind, &best),
        };
        write_evidence(check, env, None, started.elapsed().as_secs_f64(), 1);
        let path = save_replay(check, env, &f);
        println!("{}", f.message);
        println!("VIOLATION property={} replay={}", check.id, path.display());
        return 1;
    }
    eprintln!(
        "{}: worker ended by signal {sig}, but no case does it again",
        check.id
    );
    2
}

fn case_json(check: &Check, sub: usize, kind: u32, data: &[u32]) -> Value {
    let mut v = json!({ "property": check.id, "sub": check.subs[sub].name });
    if kind == 0 {
        v["tape"] = json!(data);
    } else {
        v["index"] = json!(data.first().copied().unwrap_or(0));
    }
    v
}
