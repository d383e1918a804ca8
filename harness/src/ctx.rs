//! One exploration: a deterministic enumeration of numbered cases, sharded over worker processes.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type R = Result<(), String>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Default)]
pub struct Stats {
    pub states: HashSet<u64>,
    pub transitions: u64,
    pub outcomes: BTreeMap<String, u64>,
    pub nontrivial: HashSet<u64>,
}

impl Stats {
    /// Records a visited state of the reference model (by a hash of its canonical form).
    #[inline]
    pub fn state(&mut self, h: u64) {
        self.states.insert(h);
    }
    /// Records compared steps (one call into the implementation checked against the model).
    #[inline]
    pub fn step(&mut self, n: u64) {
        self.transitions += n;
    }
    pub fn outcome(&mut self, k: &str) {
        if let Some(v) = self.outcomes.get_mut(k) {
            *v += 1;
        } else {
            self.outcomes.insert(k.to_string(), 1);
        }
    }
    pub fn nontrivial(&mut self, h: u64) {
        self.nontrivial.insert(h);
    }
}

pub struct Fail {
    pub idx: u64,
    pub desc: String,
    pub msg: String,
}

pub struct Ctx {
    pub tier: Tier,
    shard: u64,
    nshards: u64,
    only: Option<u64>,
    upto: Option<u64>,
    next: u64,
    progress: *mut u64,
    pub st: Stats,
    pub evals: u64,
    pub samples: Vec<String>,
    pub fails: Vec<Fail>,
    /// signatures of listed findings, and those met
    pub known: HashSet<String>,
    pub known_hits: HashSet<String>,
    pub families: Vec<(String, u64)>,
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let s = crate::alloc::unarmed(|| {
            let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".to_string()
            };
            let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
            format!("{m}{loc}")
        });
        if std::env::var_os("YMC_VERBOSE").is_some() {
            eprintln!("panic: {s}");
        }
        // a panic that cannot unwind aborts right after this hook: leave the message on stderr
        if s.contains("unsafe precondition") || s.contains("cannot unwind") || s.contains("misaligned") {
            eprintln!("{s}");
        }
        PANIC.with(|p| *p.borrow_mut() = s);
    }));
}

/// Runs `f`, turning a panic into an error text.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("panicked: {}", PANIC.with(|p| p.borrow().clone())))
}

/// The stack of a thread that Rust programs start without asking for another size.
pub const COMMON_STACK: usize = 2 << 20;

/// Runs `f` on a new thread with a stack of `size` bytes, turning a panic into an error text. (Overflowing the stack
/// ends the process: the supervisor reports the case.)
pub fn on_stack<T>(size: usize, f: impl FnOnce() -> T) -> Result<T, String> {
    struct Shift<T>(T);
    // the calling thread waits, so nothing is used by two threads at a time
    unsafe impl<T> Send for Shift<T> {}
    let f = Shift(f);
    let r = std::thread::scope(|s| {
        let t = std::thread::Builder::new().stack_size(size).spawn_scoped(s, move || {
            let f = f;
            Shift(no_panic(f.0))
        });
        t.expect("thread").join()
    });
    match r {
        Ok(Shift(r)) => r,
        Err(_) => Err("the thread panicked".into()),
    }
}

impl Ctx {
    pub fn new(tier: Tier, shard: u64, nshards: u64, only: Option<u64>, upto: Option<u64>, progress: *mut u64) -> Self {
        Ctx {
            tier,
            shard,
            nshards,
            only,
            upto,
            next: 0,
            progress,
            st: Stats::default(),
            evals: 0,
            samples: vec![],
            fails: vec![],
            known: HashSet::new(),
            known_hits: HashSet::new(),
            families: vec![],
        }
    }

    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }

    /// Value by tier.
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        match self.tier {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }

    /// Starts a named family of cases (for the evidence).
    pub fn family(&mut self, name: &str) {
        self.close_family();
        if std::env::var_os("YMC_VERBOSE").is_some() {
            let t = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|d| d.as_millis() % 10_000_000).unwrap_or(0);
            eprintln!("family at {t} ms: {name}");
        }
        self.families.push((name.to_string(), self.evals));
    }

    pub fn close_family(&mut self) {
        let e = self.evals;
        if let Some(l) = self.families.last_mut() {
            if !l.0.contains('\0') {
                l.1 = e - l.1;
                l.0.push('\0');
            }
        }
    }

    /// Whether the next case is this worker's to run.
    pub fn wants(&self) -> bool {
        match self.only {
            Some(o) => self.next == o,
            None => self.next % self.nshards == self.shard,
        }
    }

    /// Passes over a case number (for cases found not to be in the space only after building them).
    pub fn skip(&mut self) {
        self.next += 1;
    }

    /// One case. `desc` describes it for replay files and samples; `f` executes it on the implementation and
    /// compares with the model.
    #[inline]
    pub fn case(&mut self, desc: impl FnOnce() -> String, f: impl FnOnce(&mut Stats) -> R) {
        let idx = self.next;
        self.next += 1;
        match self.only {
            Some(o) => {
                if idx != o {
                    return;
                }
            }
            None => {
                if idx % self.nshards != self.shard || self.fails.len() >= 2 {
                    return;
                }
                if let Some(u) = self.upto {
                    if idx > u {
                        return;
                    }
                }
            }
        }
        unsafe { std::ptr::write_volatile(self.progress, idx) };
        self.evals += 1;
        let st = &mut self.st;
        let r = match no_panic(|| f(st)) {
            Ok(r) => r,
            Err(p) => Err(p),
        };
        match r {
            Ok(()) => {
                if idx == 0 || is_sample(idx) {
                    self.samples.push(format!("#{idx} {}", clip(&desc(), 300)));
                }
            }
            Err(msg) => {
                let desc = clip(&desc(), 4000);
                let sig = signature(&desc);
                if self.known.contains(&sig) {
                    self.known_hits.insert(sig);
                } else {
                    self.fails.push(Fail { idx, desc, msg: clip(&msg, 4000) })
                }
            }
        }
    }
}

fn is_sample(i: u64) -> bool {
    let mut x = 5;
    while x < i {
        x = x * 7 + 1;
    }
    x == i
}

/// Identifies a case in the list of known findings.
pub fn signature(desc: &str) -> String {
    format!("{:016x}", hash(desc))
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}...({} bytes)", &s[..e], s.len())
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

pub fn hash<T: std::hash::Hash + ?Sized>(t: &T) -> u64 {
    use std::hash::Hasher;
    // FNV-1a with an avalanche: deterministic across processes
    struct H(u64);
    impl Hasher for H {
        fn finish(&self) -> u64 {
            let mut x = self.0;
            x ^= x >> 32;
            x = x.wrapping_mul(0xd6e8feb86659fd93);
            x ^= x >> 32;
            x
        }
        fn write(&mut self, b: &[u8]) {
            for &c in b {
                self.0 = (self.0 ^ c as u64).wrapping_mul(0x100000001b3);
            }
        }
    }
    let mut h = H(0xcbf29ce484222325);
    t.hash(&mut h);
    h.finish()
}
