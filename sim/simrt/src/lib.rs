//! A deterministic single-threaded scheduler for simulated threads.
//!
//! Simulated threads ("tasks") are coroutines that all live on one OS thread. They give up
//! control only at explicit points ([`point`], [`block_on`], [`sleep`]), which the
//! replacement `parking_lot`, the logger, the simulated I/O and the caller-supplied
//! callbacks call. Which task continues is decided by a [`Sched`] that draws from one
//! seeded generator, or by an explicit list of choices (replay).
//!
//! Two switches change how the same run is carried out. With [`set_threads`] every task is
//! an OS thread of its own, of which only one runs at a time; it is slow, but thread-local
//! state is then really per simulated thread. With [`set_coarse`] tasks are switched only
//! between operations, so that no foreign lock is ever held at a switch.

mod rng;
pub use rng::{mix, Rng};

use corosensei::{stack::DefaultStack, Coroutine, CoroutineResult, Yielder};
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};

static COARSE: AtomicBool = AtomicBool::new(false);
static THREADS: AtomicBool = AtomicBool::new(false);

pub fn set_coarse(on: bool) {
    COARSE.store(on, SeqCst);
}

pub fn set_threads(on: bool) {
    THREADS.store(on, SeqCst);
}

/// What a task is doing when it reaches a scheduling point.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(u8)]
pub enum Kind {
    Start,
    LockTry,
    LockHeld,
    Unlocked,
    Blocked,
    Log,
    Callback,
    Io,
    Op,
    Sleep,
    Hashing,
    Atomic,
}

/// Panic payload used to unwind the tasks of a run that is being abandoned.
pub struct SimAbort;

#[derive(Clone, Debug)]
pub enum Sched {
    /// Uniform choice among the runnable tasks at every point.
    Uniform,
    /// Switch away from the running task with probability 1/n.
    Sticky(u64),
    /// Random priorities with a number of priority drops at random steps.
    Priorities { changes: usize, horizon: u64 },
    /// Continue until blocked or finished; preempt at this many random steps.
    FewPreemptions { preemptions: usize, horizon: u64 },
    /// Rotate after every n points.
    RoundRobin(u64),
    /// Default policy (stay; otherwise lowest id) except at the listed decision numbers.
    Explicit(Vec<(u64, usize)>),
    /// Switch only when the running task blocks, sleeps or ends; stalls are ignored.
    Serial,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Done,
    /// No task can continue; the text names who waits for what.
    Deadlock(String),
    /// The step bound was exceeded.
    StepLimit,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Status {
    Ready,
    Blocked(usize, u64),
    Sleeping(u64),
    Done,
    Leaked,
}

type Resume = ();
struct TaskState {
    status: Status,
    yielder: *const Yielder<Resume, ()>,
    baton: Option<Arc<Baton>>,
    stalled_until: u64,
    last: Kind,
    work: u64,
    /// Accesses to atomics since anything else.
    spins: u32,
    waiting_for: &'static str,
}

#[derive(Clone, Copy, PartialEq)]
enum Turn {
    Scheduler,
    Task,
    Finished,
}

/// Passes control between the scheduler and a task that is an OS thread.
struct Baton(Mutex<Turn>, Condvar);

impl Baton {
    fn give(&self, to: Turn) {
        *self.0.lock().unwrap() = to;
        self.1.notify_all();
    }
    fn wait(&self, unless: Turn) -> Turn {
        *self.1.wait_while(self.0.lock().unwrap(), |t| *t == unless).unwrap()
    }
}

/// Only the holder of the baton touches what the tasks share.
struct Handover<T>(T);
unsafe impl<T> Send for Handover<T> {}
impl<T> Handover<T> {
    fn take(self) -> T {
        self.0
    }
}

enum Body {
    Co(Coroutine<Resume, (), (), DefaultStack>),
    Thread(Arc<Baton>, std::thread::JoinHandle<()>),
}

struct Ctx {
    coarse: bool,
    tasks: RefCell<Vec<TaskState>>,
    current: Cell<usize>,
    quiet: Cell<u32>,
    serial: bool,
    aborting: Cell<bool>,
    step: Cell<u64>,
    now: Cell<u64>,
    step_limit: u64,
    trace_hash: Cell<u64>,
    switches: Cell<u64>,
    kinds: RefCell<[u64; N_KINDS]>,
    /// Thread-local variables by task and key.
    locals: RefCell<Locals>,
}

pub const N_KINDS: usize = 12;
type Locals = HashMap<(usize, usize), Box<dyn Any>>;

thread_local! {
    static CTX: Cell<*const Ctx> = const { Cell::new(std::ptr::null()) };
    static USER: Cell<*const ()> = const { Cell::new(std::ptr::null()) };
    static OUTSIDE: RefCell<Locals> = RefCell::default();
    static STACKS: RefCell<Vec<DefaultStack>> = const { RefCell::new(Vec::new()) };
}

const STACK_BYTES: usize = 4 << 20;

fn ctx() -> Option<&'static Ctx> {
    // The pointer is set only while `run` is on this thread's stack, and every user of the
    // reference runs inside that call.
    let p = CTX.with(|c| c.get());
    if p.is_null() {
        None
    } else {
        Some(unsafe { &*p })
    }
}

/// A pointer of the user's that is the same in all tasks of a run as in the caller of [`run`].
pub fn user() -> *const () {
    USER.with(|u| u.get())
}

pub fn set_user(p: *const ()) {
    USER.with(|u| u.set(p));
}

/// True while called from inside a simulated task.
pub fn in_sim() -> bool {
    ctx().is_some_and(|c| c.current.get() != usize::MAX)
}

pub fn task_id() -> Option<usize> {
    ctx().and_then(|c| (c.current.get() != usize::MAX).then(|| c.current.get()))
}

/// Steps executed so far in this run.
pub fn step() -> u64 {
    ctx().map_or(0, |c| c.step.get())
}

/// Virtual time in microseconds.
pub fn now() -> u64 {
    ctx().map_or(0, |c| c.now.get())
}

pub fn aborting() -> bool {
    ctx().is_some_and(|c| c.aborting.get())
}

/// Runs `f` without any scheduling point (used by oracles).
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            if let Some(c) = ctx() {
                c.quiet.set(c.quiet.get() - 1);
            }
        }
    }
    match ctx() {
        Some(c) => {
            c.quiet.set(c.quiet.get() + 1);
            let _g = G;
            f()
        }
        None => f(),
    }
}

pub fn is_quiet() -> bool {
    ctx().map_or(true, |c| c.quiet.get() > 0)
}

fn switch_out(c: &'static Ctx, k: Kind) {
    let (y, b) = {
        let mut t = c.tasks.borrow_mut();
        let cur = c.current.get();
        t[cur].last = k;
        (t[cur].yielder, t[cur].baton.clone())
    };
    let q = c.quiet.replace(0);
    match b {
        Some(b) => {
            b.give(Turn::Scheduler);
            b.wait(Turn::Scheduler);
        }
        None => unsafe { (*y).suspend(()) },
    }
    c.quiet.set(q);
}

/// A scheduling point. Does nothing outside a simulation, in quiet sections and while the
/// task unwinds.
pub fn point(k: Kind) {
    let Some(c) = ctx() else { return };
    if c.current.get() == usize::MAX || c.quiet.get() > 0 || std::thread::panicking() {
        return;
    }
    if c.aborting.get() {
        resume_unwind(Box::new(SimAbort));
    }
    if c.coarse && k != Kind::Op {
        return;
    }
    {
        let t = &mut c.tasks.borrow_mut()[c.current.get()];
        t.spins = if k == Kind::Atomic { t.spins + 1 } else { 0 };
        if t.spins > 200 {
            // Waiting for another task, probably: let the others go on.
            t.spins = 0;
            t.stalled_until = c.step.get() + 500;
        }
    }
    switch_out(c, k);
    if c.aborting.get() {
        resume_unwind(Box::new(SimAbort));
    }
}

/// The calling task waits for another one by doing nothing.
pub fn spinning() {
    let Some(c) = ctx() else { return };
    if c.current.get() != usize::MAX && c.quiet.get() == 0 && !c.coarse {
        c.tasks.borrow_mut()[c.current.get()].stalled_until = c.step.get() + 50;
        point(Kind::Atomic);
    }
}

/// The calling thread's variable `key`, which may have to be made first. It stays in place
/// until the simulated thread (outside a simulation: the OS thread) ends.
pub fn local(key: usize, init: &mut dyn FnMut() -> Box<dyn Any>) -> *const () {
    let find = |l: &RefCell<Locals>, t: usize| l.borrow().get(&(t, key)).map(|b| &**b as *const dyn Any as *const ());
    match (ctx(), task_id()) {
        (Some(c), Some(t)) => {
            if find(&c.locals, t).is_none() {
                let b = init();
                c.locals.borrow_mut().entry((t, key)).or_insert(b);
            }
            find(&c.locals, t)
        }
        _ => OUTSIDE.with(|l| {
            if find(l, 0).is_none() {
                let b = init();
                l.borrow_mut().entry((0, key)).or_insert(b);
            }
            find(l, 0)
        }),
    }
    .expect("a variable that was just made")
}

/// Drops the thread-local variables of a task that has ended.
fn drop_locals(c: &Ctx, t: usize) {
    loop {
        let keys: Vec<_> = c.locals.borrow().keys().filter(|k| k.0 == t).copied().collect();
        if keys.is_empty() {
            return;
        }
        for k in keys {
            let b = c.locals.borrow_mut().remove(&k);
            drop(b);
        }
    }
}

/// Blocks the calling task until [`wake`] is called for `addr`.
///
/// Returns false if the caller is not a simulated task.
pub fn block_on(addr: usize, what: &'static str) -> bool {
    let Some(c) = ctx() else { return false };
    if c.current.get() == usize::MAX {
        return false;
    }
    if c.aborting.get() {
        if !std::thread::panicking() {
            resume_unwind(Box::new(SimAbort));
        }
        // A destructor needs a lock that will never be free: give the task up.
        c.tasks.borrow_mut()[c.current.get()].status = Status::Leaked;
        switch_out(c, Kind::Blocked);
        unreachable!("a leaked task was resumed");
    }
    {
        let mut t = c.tasks.borrow_mut();
        let cur = c.current.get();
        t[cur].status = Status::Blocked(addr, c.step.get());
        t[cur].waiting_for = what;
    }
    switch_out(c, Kind::Blocked);
    if c.aborting.get() && !std::thread::panicking() {
        resume_unwind(Box::new(SimAbort));
    }
    true
}

/// Makes every task blocked on `addr` runnable.
pub fn wake(addr: usize) {
    let Some(c) = ctx() else { return };
    // May be called while the task table is not borrowed only; `run` never holds it across
    // a resume.
    for t in c.tasks.borrow_mut().iter_mut() {
        if let Status::Blocked(a, _) = t.status {
            if a == addr {
                t.status = Status::Ready;
            }
        }
    }
}

/// Counts one unit of work (a hash computation) of the calling task, except in quiet sections.
pub fn work() {
    let Some(c) = ctx() else { return };
    if c.current.get() != usize::MAX && c.quiet.get() == 0 {
        c.tasks.borrow_mut()[c.current.get()].work += 1;
    }
}

/// Work done so far by the calling task.
pub fn worked() -> u64 {
    let Some(c) = ctx() else { return 0 };
    match c.current.get() {
        usize::MAX => 0,
        i => c.tasks.borrow()[i].work,
    }
}

/// Suspends the calling task for `us` microseconds of virtual time.
pub fn sleep(us: u64) {
    let Some(c) = ctx() else { return };
    if c.current.get() == usize::MAX || c.quiet.get() > 0 || std::thread::panicking() {
        return;
    }
    c.tasks.borrow_mut()[c.current.get()].status = Status::Sleeping(c.now.get() + us);
    switch_out(c, Kind::Sleep);
    if c.aborting.get() {
        resume_unwind(Box::new(SimAbort));
    }
}

/// Keeps the calling task from being chosen for `steps` steps (unless nothing else can run).
pub fn stall(steps: u64) {
    let Some(c) = ctx() else { return };
    if c.current.get() == usize::MAX || c.quiet.get() > 0 || c.serial || std::thread::panicking() {
        return;
    }
    c.tasks.borrow_mut()[c.current.get()].stalled_until = c.step.get() + steps;
    point(Kind::Op);
}

pub struct Report {
    pub outcome: Outcome,
    pub steps: u64,
    pub switches: u64,
    pub virtual_us: u64,
    /// Hash of the sequence of (task, kind of point) of the run.
    pub trace_hash: u64,
    /// Decisions that differ from the default policy, for [`Sched::Explicit`].
    pub choices: Vec<(u64, usize)>,
    pub kinds: [u64; N_KINDS],
    /// Panics that escaped a task (text), by task.
    pub escaped: Vec<(usize, String)>,
    /// An OS thread on which a task had to be given up must not be reused.
    pub poisoned: bool,
}

pub fn panic_text(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic with a non-text payload".to_string()
    }
}

struct Chooser {
    sched: Sched,
    rng: Rng,
    prio: Vec<u64>,
    marks: Vec<u64>,
    next_mark: usize,
    low: u64,
    since: u64,
    explicit_at: usize,
}

impl Chooser {
    fn new(sched: Sched, seed: u64, n: usize) -> Self {
        let mut rng = Rng::new(seed);
        let mut prio: Vec<u64> = (0..n as u64).map(|i| i + 1000).collect();
        rng.shuffle(&mut prio);
        let mut marks = vec![];
        match sched {
            Sched::Priorities { changes: k, horizon }
            | Sched::FewPreemptions { preemptions: k, horizon } => {
                for _ in 0..k {
                    marks.push(rng.below(horizon.max(1)));
                }
                marks.sort_unstable();
            }
            _ => {}
        }
        Chooser { sched, rng, prio, marks, next_mark: 0, low: 999, since: 0, explicit_at: 0 }
    }

    fn default_choice(ready: &[usize], cur: usize) -> usize {
        if ready.contains(&cur) {
            cur
        } else {
            ready[0]
        }
    }

    fn choose(&mut self, step: u64, ready: &[usize], cur: usize) -> usize {
        let at_mark = self.next_mark < self.marks.len() && self.marks[self.next_mark] <= step;
        if at_mark {
            self.next_mark += 1;
        }
        match &self.sched {
            Sched::Uniform => ready[self.rng.below(ready.len() as u64) as usize],
            Sched::Sticky(n) => {
                if ready.contains(&cur) && self.rng.below(*n) != 0 {
                    cur
                } else {
                    ready[self.rng.below(ready.len() as u64) as usize]
                }
            }
            Sched::Priorities { .. } => {
                if at_mark && ready.contains(&cur) {
                    self.prio[cur] = self.low;
                    self.low -= 1;
                }
                *ready.iter().max_by_key(|t| self.prio[**t]).unwrap()
            }
            Sched::FewPreemptions { .. } => {
                if ready.contains(&cur) && !at_mark {
                    cur
                } else {
                    ready[self.rng.below(ready.len() as u64) as usize]
                }
            }
            Sched::RoundRobin(n) => {
                self.since += 1;
                if ready.contains(&cur) && self.since < *n {
                    cur
                } else {
                    self.since = 0;
                    *ready.iter().find(|t| **t > cur).unwrap_or(&ready[0])
                }
            }
            Sched::Serial => Self::default_choice(ready, cur),
            Sched::Explicit(list) => {
                while self.explicit_at < list.len() && list[self.explicit_at].0 < step {
                    self.explicit_at += 1;
                }
                if self.explicit_at < list.len() && list[self.explicit_at].0 == step {
                    let t = list[self.explicit_at].1;
                    if ready.contains(&t) {
                        return t;
                    }
                }
                Self::default_choice(ready, cur)
            }
        }
    }
}

/// Runs the tasks to completion under `sched`. `seed` feeds the scheduler only.
pub fn run<'a>(tasks: Vec<Box<dyn FnOnce() + 'a>>, sched: Sched, seed: u64, step_limit: u64) -> Report {
    assert!(ctx().is_none(), "nested simulation");
    let n = tasks.len();
    let c = Ctx {
        tasks: RefCell::new(
            (0..n)
                .map(|_| TaskState {
                    status: Status::Ready,
                    yielder: std::ptr::null(),
                    baton: None,
                    stalled_until: 0,
                    last: Kind::Start,
                    work: 0,
                    spins: 0,
                    waiting_for: "",
                })
                .collect(),
        ),
        coarse: COARSE.load(SeqCst),
        current: Cell::new(usize::MAX),
        quiet: Cell::new(0),
        serial: matches!(sched, Sched::Serial),
        aborting: Cell::new(false),
        step: Cell::new(0),
        now: Cell::new(0),
        step_limit,
        trace_hash: Cell::new(0x9e37_79b9_7f4a_7c15),
        switches: Cell::new(0),
        kinds: RefCell::new([0; N_KINDS]),
        locals: RefCell::default(),
    };
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            CTX.with(|c| c.set(std::ptr::null()));
        }
    }
    CTX.with(|p| p.set(&c as *const Ctx));
    let _reset = Reset;

    let escaped: Rc<RefCell<Vec<(usize, String)>>> = Rc::default();
    let mut coros: Vec<Option<Body>> = Vec::new();
    for (i, f) in tasks.into_iter().enumerate() {
        if THREADS.load(SeqCst) {
            coros.push(Some(start_thread(&c, i, f, escaped.clone())));
            continue;
        }
        let stack = STACKS
            .with(|s| s.borrow_mut().pop())
            .unwrap_or_else(|| DefaultStack::new(STACK_BYTES).expect("cannot map a task stack"));
        // Tasks never outlive this call: they are finished, unwound or forgotten below.
        let f: Box<dyn FnOnce() + 'static> = unsafe { std::mem::transmute(f) };
        let esc = escaped.clone();
        coros.push(Some(Body::Co(Coroutine::with_stack(stack, move |y: &Yielder<Resume, ()>, _| {
            ctx().unwrap().tasks.borrow_mut()[i].yielder = y as *const _;
            if let Err(p) = catch_unwind(AssertUnwindSafe(f)) {
                if !p.is::<SimAbort>() {
                    esc.borrow_mut().push((i, panic_text(&*p)));
                }
            }
        }))));
    }

    let mut chooser = Chooser::new(sched, seed, n);
    let mut choices = vec![];
    let mut cur = 0usize;
    let mut poisoned = false;
    let mut ready: Vec<usize> = Vec::with_capacity(n);
    let outcome = loop {
        let step = c.step.get();
        {
            let mut ts = c.tasks.borrow_mut();
            if ts.iter().all(|t| t.status == Status::Done) {
                break Outcome::Done;
            }
            loop {
                ready.clear();
                let mut stalled = None;
                let mut soonest = u64::MAX;
                for (i, t) in ts.iter_mut().enumerate() {
                    if let Status::Sleeping(at) = t.status {
                        if at <= c.now.get() {
                            t.status = Status::Ready;
                        } else {
                            soonest = soonest.min(at);
                        }
                    }
                    if t.status == Status::Ready {
                        if t.stalled_until > step {
                            stalled.get_or_insert(i);
                        } else {
                            ready.push(i);
                        }
                    }
                }
                if ready.is_empty() {
                    if let Some(i) = stalled {
                        ready.push(i);
                    } else if soonest != u64::MAX {
                        c.now.set(soonest);
                        continue;
                    }
                }
                break;
            }
            if ready.is_empty() {
                let who: Vec<String> = ts
                    .iter()
                    .enumerate()
                    .filter_map(|(i, t)| match t.status {
                        Status::Blocked(..) => Some(format!("task {i} waits for {}", t.waiting_for)),
                        _ => None,
                    })
                    .collect();
                break Outcome::Deadlock(who.join("; "));
            }
        }
        if step >= c.step_limit {
            break Outcome::StepLimit;
        }
        let pick = if ready.len() == 1 { ready[0] } else { chooser.choose(step, &ready, cur) };
        if pick != Chooser::default_choice(&ready, cur) {
            choices.push((step, pick));
        }
        if pick != cur {
            c.switches.set(c.switches.get() + 1);
        }
        cur = pick;
        let last = c.tasks.borrow()[pick].last;
        c.kinds.borrow_mut()[last as usize] += 1;
        c.trace_hash.set(mix(c.trace_hash.get() ^ ((pick as u64) << 8 | last as u64)));
        c.step.set(step + 1);
        c.now.set(c.now.get() + 1);
        if resume(&c, &mut coros[pick], pick) {
            c.tasks.borrow_mut()[pick].status = Status::Done;
            drop_locals(&c, pick);
        }
    };

    if outcome != Outcome::Done {
        c.aborting.set(true);
        for i in 0..n {
            let st = c.tasks.borrow()[i].status;
            if st == Status::Done {
                continue;
            }
            let blocked_while_unwinding = false;
            if !blocked_while_unwinding && resume(&c, &mut coros[i], i) {
                c.tasks.borrow_mut()[i].status = Status::Done;
            } else {
                poisoned = true;
                std::mem::forget(coros[i].take());
            }
        }
    }
    for co in coros.into_iter().flatten() {
        match co {
            Body::Co(co) if co.done() => STACKS.with(|s| s.borrow_mut().push(co.into_stack())),
            Body::Thread(b, h) if *b.0.lock().unwrap() == Turn::Finished => h.join().expect("a task thread failed"),
            co => {
                poisoned = true;
                std::mem::forget(co);
            }
        }
    }
    if std::thread::panicking() {
        poisoned = true;
    }
    let kinds = *c.kinds.borrow();
    let esc = escaped.borrow().clone();
    Report {
        outcome,
        steps: c.step.get(),
        switches: c.switches.get(),
        virtual_us: c.now.get(),
        trace_hash: c.trace_hash.get(),
        choices,
        kinds,
        escaped: esc,
        poisoned,
    }
}

/// A task as an OS thread that waits for its turn.
fn start_thread<'a>(c: &Ctx, i: usize, f: Box<dyn FnOnce() + 'a>, esc: Rc<RefCell<Vec<(usize, String)>>>) -> Body {
    let baton = Arc::new(Baton(Mutex::new(Turn::Scheduler), Condvar::new()));
    c.tasks.borrow_mut()[i].baton = Some(baton.clone());
    let f: Box<dyn FnOnce() + 'static> = unsafe { std::mem::transmute(f) };
    let pass = Handover((f, esc, c as *const Ctx, user(), baton.clone()));
    let body = move || {
        let (f, esc, c, user, baton) = pass.take();
        baton.wait(Turn::Scheduler);
        CTX.with(|p| p.set(c));
        set_user(user);
        if let Err(p) = catch_unwind(AssertUnwindSafe(f)) {
            if !p.is::<SimAbort>() {
                esc.borrow_mut().push((i, panic_text(&*p)));
            }
        }
        drop(esc);
        CTX.with(|p| p.set(std::ptr::null()));
        baton.give(Turn::Finished);
    };
    let h = std::thread::Builder::new().stack_size(STACK_BYTES).spawn(body).expect("cannot start a task thread");
    Body::Thread(baton, h)
}

/// Continues a task; true if it finished.
fn resume(c: &Ctx, co: &mut Option<Body>, i: usize) -> bool {
    c.current.set(i);
    let done = match co.as_mut().expect("task already gone") {
        Body::Co(co) => matches!(co.resume(()), CoroutineResult::Return(())),
        Body::Thread(b, _) => {
            b.give(Turn::Task);
            b.wait(Turn::Task) == Turn::Finished
        }
    };
    c.current.set(usize::MAX);
    c.quiet.set(0);
    done
}
