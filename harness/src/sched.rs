//! Stateless exploration of schedules: tasks run the real library under a controlled scheduler that enumerates,
//! depth first, every interleaving of their yield points up to a number of preemptions.
//!
//! Two schedulers: `fibers` runs the tasks as coroutines of one thread (they share thread-locals, as code called
//! from a writer callback or alternating builders do), `threads` runs each in a thread of its own, one at a time.
use crate::ctx::{no_panic, R};
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, MutexGuard};
use std::time::{Duration, Instant};

/// What a task is given: `op` marks the start of a call into the library, `inside` a point inside one.
pub struct Y<'a> {
    point: &'a dyn Fn(bool),
    allocs: bool,
    step: Option<*const Stepper>,
}

impl Y<'_> {
    pub fn op<T>(&self, f: impl FnOnce() -> T) -> T {
        (self.point)(false);
        if let Some(st) = self.step {
            {
                let st = unsafe { &*st };
                let k = st.calls.fetch_add(1, Ordering::Relaxed);
                if st.only.is_some_and(|o| o != k) {
                    return f();
                }
            }
            struct Off;
            impl Drop for Off {
                fn drop(&mut self) {
                    stepping(None);
                }
            }
            let _off = Off;
            stepping(Some(st));
            return f();
        }
        if !self.allocs {
            return f();
        }
        struct Off(Option<*const ()>);
        impl Drop for Off {
            fn drop(&mut self) {
                crate::alloc::set_hook(self.0);
            }
        }
        let _off = Off(crate::alloc::set_hook(Some(self as *const Y as *const ())));
        f()
    }

    /// A point inside a library call (in a callback).
    pub fn inside(&self) {
        let h = crate::alloc::set_hook(None);
        let was = stepping(None);
        (self.point)(true);
        crate::alloc::set_hook(h);
        if was {
            stepping(self.step);
        }
    }
}

/// Called by the allocator inside library calls of a task run by `threads`.
pub fn at_allocation(y: *const ()) {
    let y = unsafe { &*(y as *const Y) };
    (y.point)(true);
}

pub type Log = Vec<String>;
type Body = Box<dyn Fn(&Y, &mut Log) -> R + Send + Sync>;

pub struct Task {
    pub name: &'static str,
    pub body: Body,
}

/// Runs a task on its own.
pub fn alone(t: &Task) -> Result<Log, String> {
    let mut log = Log::new();
    let point = |_: bool| {};
    let y = Y { point: &point, allocs: false, step: None };
    no_panic(|| (t.body)(&y, &mut log))??;
    Ok(log)
}

/// Depth-first enumeration of choice sequences by replaying prefixes.
#[derive(Default)]
pub struct Dfs {
    script: Vec<(usize, usize)>,
    pos: usize,
}

impl Dfs {
    fn choose(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        if self.pos == self.script.len() {
            self.script.push((0, n));
        }
        let c = &mut self.script[self.pos];
        self.pos += 1;
        c.1 = n;
        c.0.min(n - 1)
    }

    /// Moves to the next sequence; false when all were explored.
    fn advance(&mut self) -> bool {
        self.script.truncate(self.pos);
        self.pos = 0;
        while let Some((c, n)) = self.script.last_mut() {
            if *c + 1 < *n {
                *c += 1;
                return true;
            }
            self.script.pop();
        }
        false
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum S {
    Ready,
    Inside,
    Blocked,
    Done,
}

struct Core {
    dfs: Dfs,
    bound: usize,
    used: usize,
    cur: usize,
    st: Vec<S>,
    /// tasks suspended inside a library call, in the order they got there (one thread only: they must be resumed
    /// in reverse)
    stack: Vec<usize>,
    lifo: bool,
    points: u64,
    trace: Vec<u8>,
}

impl Core {
    fn begin(&mut self, n: usize) {
        self.used = 0;
        self.st = vec![S::Ready; n];
        self.stack.clear();
        self.trace.clear();
        self.cur = usize::MAX;
        self.dfs.pos = 0;
    }

    fn enabled(&self, t: usize) -> bool {
        match self.st[t] {
            S::Ready => true,
            S::Inside => !self.lifo || self.stack.last() == Some(&t),
            S::Blocked | S::Done => false,
        }
    }

    /// Which task runs next (None: none can).
    fn next(&mut self) -> Option<usize> {
        self.points += 1;
        let mut opts: Vec<usize> = vec![];
        let on = self.cur != usize::MAX && self.enabled(self.cur);
        if on {
            opts.push(self.cur);
        }
        if !on || self.used < self.bound {
            opts.extend((0..self.st.len()).filter(|t| *t != self.cur && self.enabled(*t)));
        }
        if opts.is_empty() {
            return None;
        }
        let t = opts[self.dfs.choose(opts.len())];
        if on && t != self.cur {
            self.used += 1;
        }
        if t != self.cur {
            self.trace.push(t as u8);
        } else {
            self.trace.push(b'.');
        }
        self.cur = t;
        if self.st[t] == S::Inside {
            self.stack.retain(|x| *x != t);
            self.st[t] = S::Ready;
        }
        Some(t)
    }

    fn reached(&mut self, t: usize, inside: bool) {
        self.st[t] = if inside { S::Inside } else { S::Ready };
        if inside {
            self.stack.push(t);
        }
    }

    fn shown(&self) -> String {
        self.trace.iter().map(|c| if *c == b'.' { '.' } else { (b'A' + *c) as char }).collect()
    }
}

#[derive(Default, Debug)]
pub struct Explored {
    pub schedules: u64,
    pub points: u64,
}

fn compare(tasks: &[(&Task, &Log)], got: Vec<Result<Log, String>>, core: &Core) -> R {
    for (i, g) in got.into_iter().enumerate() {
        let (t, want) = tasks[i];
        let who = || {
            let all: Vec<String> = tasks.iter().enumerate().map(|(i, t)| format!("{}={}", (b'A' + i as u8) as char, t.0.name)).collect();
            format!("schedule {} of {}", core.shown(), all.join(", "))
        };
        match g {
            Err(e) => return Err(format!("{}: {}: {e}", who(), t.name)),
            Ok(l) if &l != want => {
                let k = l.iter().zip(want).position(|(a, b)| a != b).unwrap_or(l.len().min(want.len()));
                return Err(format!(
                    "{}: {} gives {:?} and alone {:?} at its step {k}",
                    who(),
                    t.name,
                    l.get(k).map(|s| crate::ctx::clip(s, 300)),
                    want.get(k).map(|s| crate::ctx::clip(s, 300))
                ));
            }
            Ok(_) => {}
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- one thread: coroutines

#[cfg(target_arch = "x86_64")]
#[unsafe(naked)]
unsafe extern "C" fn switch(save: *mut usize, to: usize) {
    core::arch::naked_asm!(
        "push rbp", "push rbx", "push r12", "push r13", "push r14", "push r15",
        "mov [rdi], rsp", "mov rsp, rsi",
        "pop r15", "pop r14", "pop r13", "pop r12", "pop rbx", "pop rbp", "ret"
    )
}

#[cfg(target_arch = "x86_64")]
#[unsafe(naked)]
unsafe extern "C" fn trampoline() {
    core::arch::naked_asm!("mov rdi, r12", "call r13", "ud2")
}

const STACK: usize = 1 << 20;

thread_local! {
    static STACKS: RefCell<Vec<usize>> = const { RefCell::new(Vec::new()) };
}

struct Fiber<'a> {
    sp: Cell<usize>,
    back: Cell<usize>,
    stack: usize,
    task: &'a Task,
    done: Cell<bool>,
    inside: Cell<bool>,
    out: RefCell<Option<Result<Log, String>>>,
}

extern "C" fn fiber_main(f: *const Fiber) {
    let f = unsafe { &*f };
    let mut log = Log::new();
    let point = |inside: bool| {
        f.inside.set(inside);
        unsafe { switch(f.sp.as_ptr(), f.back.get()) };
    };
    let y = Y { point: &point, allocs: false, step: None };
    let r = no_panic(|| (f.task.body)(&y, &mut log)).and_then(|r| r).map(|_| log);
    *f.out.borrow_mut() = Some(r);
    f.done.set(true);
    unsafe { switch(f.sp.as_ptr(), f.back.get()) };
}

impl<'a> Fiber<'a> {
    fn new(task: &'a Task) -> Box<Self> {
        let stack = STACKS.with(|s| s.borrow_mut().pop()).unwrap_or_else(|| crate::sys::map_stack(STACK));
        let f = Box::new(Fiber {
            sp: Cell::new(0),
            back: Cell::new(0),
            stack,
            task,
            done: Cell::new(false),
            inside: Cell::new(false),
            out: RefCell::new(None),
        });
        unsafe {
            let top = (stack + STACK - 64) & !15;
            let w = top as *mut usize;
            // popped by switch: r15 r14 r13 r12 rbx rbp, then the return address
            let words = [0, 0, fiber_main as extern "C" fn(*const Fiber) as usize, &*f as *const Fiber as usize, 0, 0, trampoline as unsafe extern "C" fn() as usize];
            let sp = w.sub(words.len());
            for (i, x) in words.iter().enumerate() {
                sp.add(i).write(*x);
            }
            f.sp.set(sp as usize);
        }
        f
    }
    fn resume(&self) {
        unsafe { switch(self.back.as_ptr(), self.sp.get()) };
    }
}

impl Drop for Fiber<'_> {
    fn drop(&mut self) {
        STACKS.with(|s| s.borrow_mut().push(self.stack));
    }
}

/// Every interleaving of the tasks in one thread.
pub fn fibers(tasks: &[(&Task, &Log)], bound: usize) -> Result<Explored, String> {
    let mut core = Core {
        dfs: Dfs::default(),
        bound,
        used: 0,
        cur: usize::MAX,
        st: vec![],
        stack: vec![],
        lifo: true,
        points: 0,
        trace: vec![],
    };
    let mut x = Explored::default();
    loop {
        core.begin(tasks.len());
        let fs: Vec<Box<Fiber>> = tasks.iter().map(|t| Fiber::new(t.0)).collect();
        while let Some(t) = core.next() {
            fs[t].resume();
            if fs[t].done.get() {
                core.st[t] = S::Done;
            } else {
                core.reached(t, fs[t].inside.get());
            }
        }
        let got: Vec<_> = fs.iter().map(|f| f.out.borrow_mut().take().unwrap_or(Err("never finished".into()))).collect();
        x.schedules += 1;
        compare(tasks, got, &core)?;
        if !core.dfs.advance() {
            x.points = core.points;
            return Ok(x);
        }
    }
}

// ---------------------------------------------------------------- several threads, one running at a time

struct Shared {
    core: Mutex<Core>,
    turn: AtomicUsize,
    beat: AtomicU64,
    finished: AtomicUsize,
}

impl Shared {
    fn lock(&self) -> MutexGuard<'_, Core> {
        self.core.lock().unwrap_or_else(|e| e.into_inner())
    }
}

/// A thread that does not come back within this time is taken to wait for another one.
const STUCK: Duration = Duration::from_millis(400);
/// The same, once threads were seen to wait for each other.
const STUCK_AGAIN: Duration = Duration::from_millis(20);
const DEADLOCK: Duration = Duration::from_secs(20);

fn wait_turn(sh: &Shared, id: usize) {
    while sh.turn.load(Ordering::Acquire) != id {
        std::thread::park();
    }
}

/// Every interleaving of the tasks in a thread each, switching between calls, in callbacks and at allocations.
pub fn threads(tasks: &[(Arc<Task>, Arc<Log>)], bound: usize, allocs: bool) -> Result<Explored, String> {
    let n = tasks.len();
    let mut dfs = Dfs::default();
    let mut x = Explored::default();
    let mut stuck = STUCK;
    loop {
        let sh = Arc::new(Shared {
            core: Mutex::new(Core {
                dfs,
                bound,
                used: 0,
                cur: usize::MAX,
                st: vec![],
                stack: vec![],
                lifo: false,
                points: 0,
                trace: vec![],
            }),
            turn: AtomicUsize::new(usize::MAX),
            beat: AtomicU64::new(0),
            finished: AtomicUsize::new(0),
        });
        sh.lock().begin(n);
        let peers: Arc<Mutex<Vec<std::thread::Thread>>> = Arc::new(Mutex::new(vec![]));
        let main = std::thread::current();
        let mut hs = vec![];
        let mut gate = peers.lock().unwrap();
        for (id, t) in tasks.iter().enumerate() {
            let (t, sh, peers, main) = (t.0.clone(), sh.clone(), peers.clone(), main.clone());
            let h = std::thread::Builder::new()
                .stack_size(1 << 20)
                .spawn(move || {
                    let peers: Vec<std::thread::Thread> = peers.lock().unwrap().clone();
                    wait_turn(&sh, id);
                    let busy = Cell::new(false);
                    let point = |inside: bool| {
                        if busy.replace(true) {
                            return;
                        }
                        sh.beat.fetch_add(1, Ordering::Relaxed);
                        {
                            let mut c = sh.lock();
                            c.reached(id, inside);
                            if c.cur == id || c.cur == usize::MAX {
                                // still this task's turn
                                if let Some(nx) = c.next() {
                                    if nx != id {
                                        sh.turn.store(nx, Ordering::Release);
                                        peers[nx].unpark();
                                    }
                                }
                            }
                        }
                        wait_turn(&sh, id);
                        busy.set(false);
                    };
                    let y = Y { point: &point, allocs, step: None };
                    let mut log = Log::new();
                    let r = no_panic(|| (t.body)(&y, &mut log)).and_then(|r| r).map(|_| log);
                    crate::alloc::set_hook(None);
                    let mut c = sh.lock();
                    c.st[id] = S::Done;
                    sh.beat.fetch_add(1, Ordering::Relaxed);
                    if c.cur == id || c.cur == usize::MAX {
                        match c.next() {
                            Some(nx) => {
                                sh.turn.store(nx, Ordering::Release);
                                peers[nx].unpark();
                            }
                            None => {
                                c.cur = usize::MAX;
                                sh.turn.store(usize::MAX, Ordering::Release);
                            }
                        }
                    }
                    drop(c);
                    if sh.finished.fetch_add(1, Ordering::AcqRel) + 1 == n {
                        main.unpark();
                    }
                    r
                })
                .expect("harness: cannot start a thread");
            gate.push(h.thread().clone());
            hs.push(h);
        }
        let all: Vec<std::thread::Thread> = gate.clone();
        drop(gate);
        {
            let mut c = sh.lock();
            let t = c.next().unwrap();
            sh.turn.store(t, Ordering::Release);
            all[t].unpark();
        }
        let mut beat = u64::MAX;
        let mut since = Instant::now();
        while sh.finished.load(Ordering::Acquire) < n {
            std::thread::park_timeout(stuck / 4);
            let b = sh.beat.load(Ordering::Relaxed);
            if b != beat {
                beat = b;
                since = Instant::now();
            } else if since.elapsed() > stuck {
                stuck = STUCK_AGAIN;
                // the running task waits for something: let another one run
                let mut c = sh.lock();
                let cur = c.cur;
                if cur != usize::MAX && c.st[cur] == S::Ready {
                    c.st[cur] = S::Blocked;
                }
                c.cur = usize::MAX;
                if let Some(nx) = c.next() {
                    sh.turn.store(nx, Ordering::Release);
                    all[nx].unpark();
                }
                if since.elapsed() > DEADLOCK {
                    let tr = c.shown();
                    return Err(format!("schedule {tr} of {:?}: no task gets any further", tasks.iter().map(|t| t.0.name).collect::<Vec<_>>()));
                }
            }
        }
        let got: Vec<Result<Log, String>> = hs.into_iter().map(|h| h.join().unwrap_or(Err("harness thread died".into()))).collect();
        x.schedules += 1;
        let mut c = sh.lock();
        x.points += c.points;
        let refs: Vec<(&Task, &Log)> = tasks.iter().map(|t| (&*t.0, &*t.1)).collect();
        compare(&refs, got, &c)?;
        if !c.dfs.advance() {
            return Ok(x);
        }
        dfs = std::mem::take(&mut c.dfs);
    }
}

// ---------------------------------------------------------------- between any two instructions

static WAITED: AtomicBool = AtomicBool::new(false);
static STEP_FN: AtomicUsize = AtomicUsize::new(0);

thread_local! {
    static STEPPING: Cell<*const Stepper> = const { Cell::new(std::ptr::null()) };
}

struct Stepper {
    /// only count the instructions
    count: bool,
    last: AtomicU64,
    /// raised to ask the other thread for one run, lowered by it when done
    ask: AtomicBool,
    quit: AtomicBool,
    seen: AtomicU64,
    runs: AtomicU64,
    from: u64,
    /// 0: only once
    every: u64,
    /// the only library call to be stepped through (none: all)
    only: Option<u64>,
    calls: AtomicU64,
    late: AtomicBool,
}

extern "C" fn on_step(at: u64) -> bool {
    let p = STEPPING.with(|s| s.get());
    if p.is_null() {
        return false;
    }
    let s = unsafe { &*p };
    if s.count {
        // copying by a repeated instruction counts as copying by blocks of 32 bytes would
        if s.last.swap(at, Ordering::Relaxed) != at || s.runs.fetch_add(1, Ordering::Relaxed) % 32 == 31 {
            s.seen.fetch_add(1, Ordering::Relaxed);
        }
        return true;
    }
    let i = s.seen.fetch_add(1, Ordering::Relaxed);
    if i < s.from || (s.every == 0 && i > s.from) || (s.every != 0 && (i - s.from) % s.every != 0) {
        return true;
    }
    if s.late.load(Ordering::Acquire) {
        if s.ask.load(Ordering::Acquire) {
            return true;
        }
        s.late.store(false, Ordering::Release);
    }
    s.ask.store(true, Ordering::Release);
    let mut spins = 0u64;
    let mut t0 = None;
    while s.ask.load(Ordering::Acquire) {
        spins += 1;
        if spins < 300 {
            std::hint::spin_loop();
        } else {
            crate::sys::yield_now();
            if spins % 64 == 0 {
                let t0 = *t0.get_or_insert_with(Instant::now);
                if t0.elapsed() > Duration::from_millis(if WAITED.load(Ordering::Relaxed) { 10 } else { 1000 }) {
                    WAITED.store(true, Ordering::Relaxed);
                    // the other one waits for this thread: go on
                    s.late.store(true, Ordering::Release);
                    return true;
                }
            }
        }
    }
    s.runs.fetch_add(1, Ordering::Relaxed);
    if s.every == 0 {
        STEPPING.with(|s| s.set(std::ptr::null()));
        return false;
    }
    true
}

/// Sets what single-stepping of this thread reports to; says whether it was on.
fn stepping(to: Option<*const Stepper>) -> bool {
    let was = step_off();
    STEPPING.with(|s| s.set(to.unwrap_or(std::ptr::null())));
    if to.is_some() {
        step_on();
    }
    was
}

/// Turns single-stepping of this thread off (in the allocator) and says whether it was on.
#[inline]
pub fn step_off() -> bool {
    let on = STEPPING.try_with(|s| !s.get().is_null()).unwrap_or(false);
    if on {
        crate::sys::trap_flag(false);
    }
    on
}
#[inline]
pub fn step_on() {
    crate::sys::trap_flag(true);
}

/// Runs `f` counting the instructions it takes (those of the allocator excepted).
/// Also says how many steps counting them took.
pub fn instructions<T>(f: impl FnOnce() -> T) -> (T, u64, u64) {
    if STEP_FN.swap(1, Ordering::Relaxed) == 0 {
        crate::sys::on_trap(on_step);
    }
    let st = Stepper {
        count: true,
        last: AtomicU64::new(0),
        ask: AtomicBool::new(false),
        quit: AtomicBool::new(false),
        seen: AtomicU64::new(0),
        runs: AtomicU64::new(0),
        from: u64::MAX,
        every: 0,
        only: None,
        calls: AtomicU64::new(0),
        late: AtomicBool::new(false),
    };
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            stepping(None);
        }
    }
    let off = Off;
    stepping(Some(&st as *const Stepper));
    let r = f();
    drop(off);
    let n = st.seen.load(Ordering::Relaxed);
    (r, n, n + st.runs.load(Ordering::Relaxed))
}

pub struct Stepped {
    pub instructions: u64,
    pub runs: u64,
    pub calls: u64,
}

/// `a` with `b` run once, at each instruction of each library call of `a` in turn.
pub fn stepped_once(a: &(Arc<Task>, Arc<Log>), b: &(Arc<Task>, Arc<Log>)) -> Result<u64, String> {
    let mut total = 0;
    let calls = stepped(a, b, u64::MAX, 0, Some(u64::MAX))?.calls;
    for call in 0..calls {
        let mut i = 0;
        loop {
            let r = stepped(a, b, i, 0, Some(call))?;
            total += r.runs;
            if r.runs == 0 {
                break;
            }
            i += 1;
        }
    }
    Ok(total)
}

/// Runs `a` once, with `b` run from start to end in another thread at instructions `from`, `from + every`, ... of
/// `a`'s library calls, or of one of them.
pub fn stepped(a: &(Arc<Task>, Arc<Log>), b: &(Arc<Task>, Arc<Log>), from: u64, every: u64, only: Option<u64>) -> Result<Stepped, String> {
    if STEP_FN.swap(1, Ordering::Relaxed) == 0 {
        crate::sys::on_trap(on_step);
    }
    let st = Arc::new(Stepper {
        count: false,
        last: AtomicU64::new(0),
        ask: AtomicBool::new(false),
        quit: AtomicBool::new(false),
        seen: AtomicU64::new(0),
        runs: AtomicU64::new(0),
        from,
        every,
        only,
        calls: AtomicU64::new(0),
        late: AtomicBool::new(false),
    });
    let (s2, b2) = (st.clone(), b.clone());
    let hb = std::thread::Builder::new()
        .stack_size(1 << 20)
        .spawn(move || -> R {
            let mut bad = Ok(());
            let mut idle = 0u64;
            loop {
                if s2.ask.load(Ordering::Acquire) {
                    idle = 0;
                    if bad.is_ok() {
                        bad = match alone(&b2.0) {
                            Ok(l) if l == *b2.1 => Ok(()),
                            Ok(l) => {
                                let k = l.iter().zip(&*b2.1).position(|(a, b)| a != b).unwrap_or(0);
                                Err(format!("{} gives {:?} and alone {:?}", b2.0.name, l.get(k), b2.1.get(k)))
                            }
                            Err(e) => Err(format!("{}: {e}", b2.0.name)),
                        };
                    }
                    s2.ask.store(false, Ordering::Release);
                } else if s2.quit.load(Ordering::Acquire) {
                    return bad;
                } else {
                    idle += 1;
                    if idle < 300 {
                        std::hint::spin_loop();
                    } else {
                        crate::sys::yield_now();
                    }
                }
            }
        })
        .expect("harness: cannot start a thread");
    let (s3, a2) = (st.clone(), a.clone());
    let ha = std::thread::Builder::new()
        .stack_size(1 << 20)
        .spawn(move || {
            let mut log = Log::new();
            let point = |_: bool| {};
            let y = Y { point: &point, allocs: false, step: Some(&*s3) };
            let r = no_panic(|| (a2.0.body)(&y, &mut log));
            r.and_then(|r| r).map(|_| log)
        })
        .expect("harness: cannot start a thread");
    let ra = ha.join().unwrap_or(Err("harness thread died".into()));
    st.quit.store(true, Ordering::Release);
    let rb = hb.join().unwrap_or(Err("harness thread died".into()));
    let (n, runs) = (st.seen.load(Ordering::Relaxed), st.runs.load(Ordering::Relaxed));
    let what = || {
        let w = if every == 0 { "once" } else { "and then again and again" };
        let c = only.map(|c| format!(" of call {c}")).unwrap_or_default();
        format!("{} stopped at instruction {from}{c} ({w}) to run {} in another thread", a.0.name, b.0.name)
    };
    rb.map_err(|e| format!("{}: {e}", what()))?;
    match ra {
        Err(e) => Err(format!("{}: {e}", what())),
        Ok(l) if l != *a.1 => {
            let k = l.iter().zip(&*a.1).position(|(x, y)| x != y).unwrap_or(0);
            Err(format!("{}: gives {:?} and alone {:?}", what(), l.get(k), a.1.get(k)))
        }
        Ok(_) => Ok(Stepped { instructions: n, runs, calls: st.calls.load(Ordering::Relaxed) }),
    }
}
