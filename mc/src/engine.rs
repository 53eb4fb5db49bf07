//! Stateless model-checking engine.
//!
//! A *scene* is a deterministic function of the choices it draws from a [`Ch`].
//! The engine enumerates the whole choice tree (every alternative of every
//! choice point), running the real code once per leaf.  Nothing is sampled.
//!
//! The exploring process publishes the choice prefix of every execution it is
//! running in a shared memory file, so that the supervising parent process can
//! name (and re-run in isolation) the execution that aborted or never returned.

use std::any::Any;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::collections::HashSet;
use std::fmt::Write as _;
use std::hash::Hash;
use std::hash::Hasher;
use std::sync::atomic::*;
use std::sync::Mutex;
use std::time::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
}

/// A property violation. `sig` identifies the failing input / call site /
/// history class (it is what a known-findings entry names).
#[derive(Debug, Clone)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}

pub type R = Result<(), Fail>;

pub fn fail<T>(sig: &str, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.to_string(), msg: msg.into() })
}

/// payload for violations raised from inside callbacks invoked by the library
pub struct ViolationPanic(pub String, pub String);
/// payload for errors of the harness itself
pub struct EnginePanic(pub String);

/// Small, fast, deterministic hasher (FxHash).
#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut v = [0u8; 8];
            v[..c.len()].copy_from_slice(c);
            self.0 = (self.0.rotate_left(5) ^ u64::from_le_bytes(v)).wrapping_mul(0x517cc1b727220a95);
        }
        self.0 = (self.0.rotate_left(5) ^ b.len() as u64).wrapping_mul(0x517cc1b727220a95);
    }
}

pub fn hash_of(v: &(impl Hash + ?Sized)) -> u64 {
    let mut h = Fx::default();
    v.hash(&mut h);
    h.finish()
}

thread_local! {
    /// sessions of this execution are opened with a past (see sess.rs)
    pub static SEASONED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    /// the past is being acted out: targets neither log nor fail
    pub static SEASONING: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub struct Ch {
    prefix: Vec<u32>,
    pub trace: Vec<(u32, u32)>,
    pub tier: Tier,
    pub recording: bool,
    pub notes: Vec<String>,
    states: HashSet<u64>,
    outcomes: HashSet<u64>,
    pub transitions: u64,
    pub replayed: u64,
    /// (first choice of the loop, its length, choices drawn past the loop)
    lasso: Option<(usize, usize, usize)>,
}

#[macro_export]
macro_rules! note {
    ($ch:expr, $($t:tt)*) => { if $ch.recording && $ch.notes.len() < 3000 { let s = format!($($t)*); $ch.notes.push(s); } };
}

impl Ch {
    pub fn new(tier: Tier) -> Ch {
        Ch {
            prefix: vec![],
            trace: vec![],
            tier,
            recording: false,
            notes: vec![],
            states: HashSet::new(),
            outcomes: HashSet::new(),
            transitions: 0,
            replayed: 0,
            lasso: None,
        }
    }

    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }

    /// `a` in the quick tier, `b` in the thorough tier.
    pub fn by<T>(&self, a: T, b: T) -> T {
        if self.quick() {
            a
        } else {
            b
        }
    }

    /// Draw a choice in `0..n`.
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0 && n < u32::MAX as usize);
        if n == 1 {
            return 0;
        }
        let pos = self.trace.len();
        if let Some((start, len, n_past)) = &mut self.lasso {
            if pos - *start >= *len {
                let c = self.trace[*start + *n_past % *len].0 as usize;
                *n_past += 1;
                return c % n;
            }
        }
        let c = self.prefix.get(pos).copied().unwrap_or(0);
        if c as usize >= n {
            std::panic::panic_any(EnginePanic(format!(
                "{}: choice #{} = {} but only {} alternatives",
                DIVERGED, pos, c, n
            )));
        }
        self.trace.push((c, n as u32));
        c as usize
    }

    /// From here on only the next `len` choices are free; they are repeated for ever
    /// (modulo the number of alternatives).
    pub fn lasso(&mut self, len: usize) {
        self.lasso = Some((self.trace.len(), len, 0));
    }

    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }

    pub fn pick<T: Clone>(&mut self, items: &[T]) -> T {
        items[self.choose(items.len())].clone()
    }

    /// Record a reached (canonical) state.
    pub fn state(&mut self, s: &(impl Hash + ?Sized)) {
        self.states.insert(hash_of(s));
    }

    /// Record an observed outcome (used to detect vacuous exploration).
    pub fn outcome(&mut self, s: &(impl Hash + ?Sized)) {
        self.outcomes.insert(hash_of(s));
    }

    /// Count one executed transition of the implementation.
    pub fn step(&mut self) {
        self.transitions += 1;
    }

    fn begin(&mut self, prefix: &[u32]) {
        self.prefix.clear();
        self.prefix.extend_from_slice(prefix);
        self.trace.clear();
        self.notes.clear();
        self.lasso = None;
    }
}

pub struct Scene {
    pub name: &'static str,
    pub body: fn(&mut Ch) -> R,
}

/// Properties whose every scene runs twice, in a fresh session and in one
/// that has a past: its verdicts may not depend on what came before.
static FORCED: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
const PAST: &[&str] = &[
    "C02", "C03", "C04", "C05", "C06", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19",
    "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29", "C32",
];

/// Properties whose executions go through the operating system (sockets, processes).
const OS_BOUND: &[&str] = &["C33", "C36"];
const DIVERGED: &str = "replay diverged";

pub struct Prop {
    pub id: &'static str,
    pub scenes: &'static [Scene],
    pub assumptions: &'static [&'static str],
}

// ---------------------------------------------------------------- panics ---

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

pub enum Outcome {
    Ok,
    Fail(Fail),
    Engine(String),
}

pub fn run_one(prop: &Prop, scene: &Scene, ch: &mut Ch, prefix: &[u32]) -> Outcome {
    ch.begin(prefix);
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    SEASONING.set(false);
    SEASONED.set(false);
    let past = PAST.contains(&prop.id) || *FORCED.get_or_init(|| std::env::var("MC_PAST").is_ok());
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        if past {
            SEASONED.set(ch.flag());
        }
        (scene.body)(ch)
    }));
    match r {
        Ok(Ok(())) => {
            if ch.trace.len() < prefix.len() {
                return Outcome::Engine(format!(
                    "{}: {} choices supplied, {} drawn",
                    DIVERGED,
                    prefix.len(),
                    ch.trace.len()
                ));
            }
            Outcome::Ok
        }
        Ok(Err(f)) => Outcome::Fail(f),
        Err(p) => classify_panic(p),
    }
}

fn classify_panic(p: Box<dyn Any + Send>) -> Outcome {
    let p = match p.downcast::<ViolationPanic>() {
        Ok(v) => return Outcome::Fail(Fail { sig: v.0, msg: v.1 }),
        Err(p) => p,
    };
    if let Ok(e) = p.downcast::<EnginePanic>() {
        return Outcome::Engine(e.0);
    }
    let (loc, msg) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
    if loc.starts_with("src/") {
        Outcome::Engine(format!("harness panicked at {}: {}", loc, msg))
    } else {
        let short = loc.rsplit("/repo/").next().unwrap_or(&loc).to_string();
        let file = short.split(':').next().unwrap_or("").to_string();
        Outcome::Fail(Fail {
            sig: format!("panic@{}", file),
            msg: format!("the library panicked at {}: {}", short, msg),
        })
    }
}

// ------------------------------------------------------------ shared slots ---

pub const SLOT: usize = 1 << 16;

extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

pub struct Slots {
    base: *mut u8,
}
unsafe impl Send for Slots {}
unsafe impl Sync for Slots {}

pub fn now_ms() -> u64 {
    SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_millis() as u64
}

impl Slots {
    pub fn open(path: &str, n: usize, create: bool) -> std::io::Result<Slots> {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(create)
            .truncate(create)
            .open(path)?;
        if create {
            f.set_len((n * SLOT) as u64)?;
        }
        let base = unsafe { mmap(std::ptr::null_mut(), n * SLOT, 3, 1, f.as_raw_fd(), 0) };
        if base as isize == -1 {
            return Err(std::io::Error::last_os_error());
        }
        Ok(Slots { base })
    }

    fn word(&self, slot: usize, w: usize) -> &AtomicU64 {
        unsafe { &*(self.base.add(slot * SLOT + w * 8) as *const AtomicU64) }
    }

    /// words: 0 = busy start time (0 when idle), 1 = (scene << 32 | len), 2.. = prefix
    pub fn publish(&self, slot: usize, start_ms: u64, scene: usize, prefix: &[u32]) {
        let len = prefix.len().min((SLOT - 64) / 4);
        unsafe {
            std::ptr::copy_nonoverlapping(
                prefix.as_ptr() as *const u8,
                self.base.add(slot * SLOT + 32),
                len * 4,
            );
        }
        self.word(slot, 1).store((scene as u64) << 32 | len as u64, Ordering::Relaxed);
        self.word(slot, 0).store(start_ms, Ordering::Release);
    }

    pub fn idle(&self, slot: usize) {
        self.word(slot, 0).store(0, Ordering::Release);
    }

    pub fn get(&self, slot: usize) -> Option<(u64, usize, Vec<u32>)> {
        let t = self.word(slot, 0).load(Ordering::Acquire);
        if t == 0 {
            return None;
        }
        let w = self.word(slot, 1).load(Ordering::Relaxed);
        let len = ((w & 0xffff_ffff) as usize).min((SLOT - 64) / 4);
        let mut v = vec![0u32; len];
        unsafe {
            std::ptr::copy_nonoverlapping(
                self.base.add(slot * SLOT + 32),
                v.as_mut_ptr() as *mut u8,
                len * 4,
            );
        }
        Some((t, (w >> 32) as usize, v))
    }
}

// ------------------------------------------------------------- exploration ---

/// A bundle of unexplored siblings: `prefix[..] + x` for x in lo..hi
struct Work {
    prefix: Vec<u32>,
    lo: u32,
    hi: u32,
}

#[derive(Default)]
pub struct SceneStats {
    pub name: String,
    pub executions: u64,
    pub states: u64,
    pub outcomes: u64,
    pub transitions: u64,
    pub replayed: u64,
    pub max_choices: usize,
    pub exhausted: bool,
    pub wall_s: f64,
    pub samples: Vec<String>,
}

#[derive(Clone)]
pub struct Found {
    pub scene: usize,
    pub choices: Vec<u32>,
    pub fail: Fail,
    pub notes: Vec<String>,
}

pub struct ExploreResult {
    pub stats: SceneStats,
    pub violation: Option<Found>,
    pub known: BTreeMap<String, (u64, Found)>,
    pub engine_error: Option<String>,
}

pub fn explore(
    prop: &Prop,
    scene_ix: usize,
    tier: Tier,
    threads: usize,
    known_sigs: &[String],
    deadline: Instant,
    slots: Option<&Slots>,
) -> ExploreResult {
    let scene = &prop.scenes[scene_ix];
    let start = Instant::now();
    let shared: Mutex<Vec<Work>> = Mutex::new(vec![Work { prefix: vec![], lo: 0, hi: 1 }]);
    // root work item: the empty prefix (encoded with hi = 1, prefix empty)
    let idle = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let timed_out = AtomicBool::new(false);
    let first_root = AtomicBool::new(true);
    struct Acc {
        execs: u64,
        states: HashSet<u64>,
        outcomes: HashSet<u64>,
        transitions: u64,
        replayed: u64,
        max_choices: usize,
        violation: Option<Found>,
        known: BTreeMap<String, (u64, Found)>,
        engine: Option<String>,
        samples: Vec<Vec<u32>>,
    }
    let acc = Mutex::new(Acc {
        execs: 0,
        states: HashSet::new(),
        outcomes: HashSet::new(),
        transitions: 0,
        replayed: 0,
        max_choices: 0,
        violation: None,
        known: BTreeMap::new(),
        engine: None,
        samples: vec![],
    });

    std::thread::scope(|s| {
        for w in 0..threads {
            let (shared, idle, stop, timed_out, acc, first_root) =
                (&shared, &idle, &stop, &timed_out, &acc, &first_root);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, move || {
                    let mut ch = Ch::new(tier);
                    let mut local: Vec<Work> = vec![];
                    let mut execs = 0u64;
                    let mut max_choices = 0;
                    let mut next_sample = 1u64;
                    let mut samples = vec![];
                    let mut known: BTreeMap<String, (u64, Found)> = BTreeMap::new();
                    let mut am_idle = false;
                    let mut cur: Vec<u32> = vec![];
                    loop {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let mut got = local.pop();
                        if got.is_none() {
                            let mut sh = shared.lock().unwrap();
                            got = sh.pop();
                            drop(sh);
                            if got.is_none() {
                                if !am_idle {
                                    am_idle = true;
                                    idle.fetch_add(1, Ordering::SeqCst);
                                }
                                if idle.load(Ordering::SeqCst) == threads
                                    && shared.lock().unwrap().is_empty()
                                {
                                    break;
                                }
                                std::thread::sleep(Duration::from_micros(50));
                                continue;
                            }
                        }
                        if am_idle {
                            am_idle = false;
                            idle.fetch_sub(1, Ordering::SeqCst);
                        }
                        let mut work = got.unwrap();
                        let root = work.prefix.is_empty()
                            && work.hi == 1
                            && first_root.swap(false, Ordering::SeqCst);
                        cur.clear();
                        cur.extend_from_slice(&work.prefix);
                        if !root {
                            cur.push(work.lo);
                            work.lo += 1;
                            if work.lo < work.hi {
                                // split big sibling ranges so others can help
                                if idle.load(Ordering::Relaxed) > 0 && work.hi - work.lo > 1 {
                                    let mid = (work.lo + work.hi) / 2;
                                    shared.lock().unwrap().push(Work {
                                        prefix: work.prefix.clone(),
                                        lo: mid,
                                        hi: work.hi,
                                    });
                                    work.hi = mid;
                                }
                                local.push(work);
                            }
                        }
                        if let Some(sl) = slots {
                            sl.publish(w, now_ms(), scene_ix, &cur);
                        }
                        let out = run_one(prop, scene, &mut ch, &cur);
                        if let Some(sl) = slots {
                            sl.idle(w);
                        }
                        execs += 1;
                        max_choices = max_choices.max(ch.trace.len());
                        if execs == next_sample {
                            samples.push(ch.trace.iter().map(|x| x.0).collect::<Vec<_>>());
                            next_sample *= 100;
                        }
                        match out {
                            Outcome::Ok => {}
                            Outcome::Engine(e) if e.starts_with(DIVERGED) && !OS_BOUND.contains(&prop.id) => {
                                let mut a = acc.lock().unwrap();
                                a.violation.get_or_insert(Found {
                                    scene: scene_ix,
                                    choices: cur.clone(),
                                    fail: Fail {
                                        sig: "history".into(),
                                        msg: format!(
                                            "the same inputs led elsewhere in a later session of the process ({})",
                                            e
                                        ),
                                    },
                                    notes: vec![],
                                });
                                stop.store(true, Ordering::SeqCst);
                            }
                            Outcome::Engine(e) => {
                                let mut a = acc.lock().unwrap();
                                a.engine.get_or_insert(format!(
                                    "{} (scene {}, choices {:?})",
                                    e, scene.name, cur
                                ));
                                stop.store(true, Ordering::SeqCst);
                            }
                            Outcome::Fail(f) => {
                                let choices: Vec<u32> = ch.trace.iter().map(|x| x.0).collect();
                                if known_sigs.contains(&f.sig) {
                                    known
                                        .entry(f.sig.clone())
                                        .and_modify(|e| e.0 += 1)
                                        .or_insert_with(|| {
                                            (
                                                1,
                                                Found {
                                                    scene: scene_ix,
                                                    choices,
                                                    fail: f,
                                                    notes: vec![],
                                                },
                                            )
                                        });
                                } else {
                                    let mut a = acc.lock().unwrap();
                                    let better = match &a.violation {
                                        None => true,
                                        Some(v) => {
                                            (choices.len(), &choices) < (v.choices.len(), &v.choices)
                                        }
                                    };
                                    if better {
                                        a.violation = Some(Found {
                                            scene: scene_ix,
                                            choices,
                                            fail: f,
                                            notes: vec![],
                                        });
                                    }
                                    stop.store(true, Ordering::SeqCst);
                                }
                            }
                        }
                        // schedule the unexplored siblings of every new choice point
                        for i in cur.len()..ch.trace.len() {
                            let n = ch.trace[i].1;
                            if n > 1 {
                                local.push(Work {
                                    prefix: ch.trace[..i].iter().map(|x| x.0).collect(),
                                    lo: 1,
                                    hi: n,
                                });
                            }
                        }
                        if idle.load(Ordering::Relaxed) > 0 && local.len() > 1 {
                            let give = local.len() / 2;
                            let mut sh = shared.lock().unwrap();
                            sh.extend(local.drain(..give));
                        }
                        if execs % 64 == 0 && Instant::now() > deadline {
                            timed_out.store(true, Ordering::SeqCst);
                            stop.store(true, Ordering::SeqCst);
                        }
                    }
                    let mut a = acc.lock().unwrap();
                    a.execs += execs;
                    a.states.extend(ch.states.iter());
                    a.outcomes.extend(ch.outcomes.iter());
                    a.transitions += ch.transitions;
                    a.replayed += ch.replayed;
                    a.max_choices = a.max_choices.max(max_choices);
                    if a.samples.len() < 6 {
                        a.samples.extend(samples);
                    }
                    for (k, v) in known {
                        a.known.entry(k).and_modify(|e| e.0 += v.0).or_insert(v);
                    }
                })
                .unwrap();
        }
    });

    let mut a = acc.into_inner().unwrap();
    let mut ch = Ch::new(tier);
    ch.recording = true;
    let mut samples = vec![];
    for s in a.samples.iter().take(4) {
        // re-running a recorded execution must behave identically
        let _ = run_one(prop, scene, &mut ch, s);
        let mut t = format!("{}:", scene.name);
        for n in &ch.notes {
            let _ = write!(t, " {};", n);
        }
        if t.len() > 600 {
            let mut cut = 600;
            while !t.is_char_boundary(cut) {
                cut -= 1;
            }
            t.truncate(cut);
            t.push_str("...");
        }
        samples.push(t);
    }
    if let Some(v) = &mut a.violation {
        // A violation is expected to reproduce from its recorded choices. The harness
        // itself is a function of them, so when it does not, the code under test keeps
        // state from one session of the process to the next. Where the operating system
        // has a part in the execution, an unrepeatable failure is not believed.
        let tries = if OS_BOUND.contains(&prop.id) { 20 } else { 2 };
        let mut what = String::new();
        let again = (0..tries).any(|_| match run_one(prop, scene, &mut ch, &v.choices) {
            Outcome::Fail(f) if f.sig == v.fail.sig => true,
            o => {
                what = match o {
                    Outcome::Ok => "passed".to_string(),
                    Outcome::Fail(f) => format!("failed differently: {} {}", f.sig, f.msg),
                    Outcome::Engine(e) => e,
                };
                false
            }
        });
        if again {
            v.notes = ch.notes.clone();
        } else if OS_BOUND.contains(&prop.id) {
            a.engine.get_or_insert(format!(
                "a recorded violation ({} {}) did not reproduce: {}",
                v.fail.sig, v.fail.msg, what
            ));
            a.violation = None;
        } else {
            v.notes = vec![format!(
                "run again on its own, this execution {}: what the code does here depends on earlier sessions of the process",
                what
            )];
        }
    }
    ExploreResult {
        stats: SceneStats {
            name: scene.name.to_string(),
            executions: a.execs,
            states: a.states.len() as u64,
            outcomes: a.outcomes.len() as u64,
            transitions: a.transitions,
            replayed: a.replayed,
            max_choices: a.max_choices,
            exhausted: !timed_out.load(Ordering::SeqCst) && a.violation.is_none(),
            wall_s: start.elapsed().as_secs_f64(),
            samples,
        },
        violation: a.violation,
        known: a.known,
        engine_error: a.engine,
    }
}
