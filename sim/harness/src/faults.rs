//! Fault injection: panics and stalls at callback and logging points, simulated streams.

use crate::forms;
use crate::model::{pack, Ent};
use eth_trie_utils::nibbles::{Nibbles, ToNibbles};
use eth_trie_utils::trie_ops::ValOrHash;
use ethereum_types::H256;
use serde::{Deserialize, Serialize};
use simrt::{point, Kind};
use std::cell::{Cell, RefCell};
use std::io;

/// Where an injected fault strikes.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Site {
    /// A `trace!` call inside the library.
    Log,
    /// `next()` of a caller-supplied iterator.
    Iter,
    /// Conversion of a caller-supplied key.
    Key,
    /// Conversion of a caller-supplied value.
    Value,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Act {
    Panic,
    Stall(u16),
}

/// The fault strikes at the (n+1)-th arrival at `site` during the operation.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Fault {
    pub site: Site,
    pub n: u16,
    pub act: Act,
}

/// Payload of an injected panic.
pub struct Injected;

#[derive(Clone, Default)]
struct Slot {
    armed: Option<Fault>,
    fired: bool,
}

/// State of the simulation that runs on this thread.
#[derive(Default)]
struct Local {
    armed: RefCell<Vec<Slot>>,
    hooks: RefCell<Vec<Option<Hook>>>,
    log_format: Cell<bool>,
    /// Chooses the forms keys and values are given in (0: always the plain one).
    forms: Cell<u64>,
    /// Keys arrive from elsewhere, damaged and sent again.
    wire: Cell<bool>,
    forms_used: Cell<u64>,
    forms_judged: Cell<u64>,
    form_error: RefCell<Option<String>>,
    fired: RefCell<[u64; N_FIRED]>,
    last_panic: RefCell<String>,
    worker: Cell<bool>,
}

fn with<T, R>(x: &T, f: impl FnOnce(&T) -> R) -> R {
    f(x)
}

fn local() -> &'static Local {
    let mut p = simrt::user() as *const Local;
    if p.is_null() {
        p = Box::leak(Box::default());
        simrt::set_user(p as *const ());
    }
    unsafe { &*p }
}

pub const N_FIRED: usize = 28;
/// Kinds of faults counted when they actually take effect.
pub const FIRED_NAMES: [&str; N_FIRED] = [
    "panic_in_logger",
    "panic_in_iterator",
    "panic_in_key_conversion",
    "panic_in_value_conversion",
    "stall_in_logger",
    "stall_in_callback",
    "short_write",
    "interrupted_write",
    "write_error",
    "short_read",
    "interrupted_read",
    "read_error",
    "truncated_file",
    "altered_byte",
    "refused_hidden_part",
    "reentrant_callback",
    "task_stall",
    "message_lost",
    "message_duplicated",
    "message_delayed",
    "message_altered",
    "partition",
    "crash_restart",
    "killed_task",
    "key_cut",
    "key_altered",
    "key_with_extra_bytes",
    "key_joined_with_another",
];
pub mod fired {
    pub const SHORT_WRITE: usize = 6;
    pub const INT_WRITE: usize = 7;
    pub const WRITE_ERR: usize = 8;
    pub const SHORT_READ: usize = 9;
    pub const INT_READ: usize = 10;
    pub const READ_ERR: usize = 11;
    pub const TRUNC: usize = 12;
    pub const FLIP: usize = 13;
    pub const REFUSED: usize = 14;
    pub const REENTER: usize = 15;
    pub const TASK_STALL: usize = 16;
    pub const LOST: usize = 17;
    pub const DUP: usize = 18;
    pub const DELAY: usize = 19;
    pub const ALTER: usize = 20;
    pub const PARTITION: usize = 21;
    pub const CRASH: usize = 22;
    pub const KILL: usize = 23;
    pub const CUT: usize = 24;
    pub const ALTERED: usize = 25;
    pub const PADDED: usize = 26;
    pub const JOINED: usize = 27;
}

pub fn count(i: usize) {
    with(&local().fired, |f| f.borrow_mut()[i] += 1);
}

pub fn take_fired() -> [u64; N_FIRED] {
    with(&local().fired, |f| std::mem::replace(&mut *f.borrow_mut(), [0; N_FIRED]))
}

/// Forms used in this run (a bit each) and how often one was judged.
pub fn forms_used() -> (u64, u64) {
    (local().forms_used.get(), local().forms_judged.get())
}

/// What the library made of a key or value that it should not have.
pub fn take_form_error() -> Option<String> {
    local().form_error.borrow_mut().take()
}

fn judged(form: usize, bad: Option<String>) {
    let l = local();
    l.forms_used.set(l.forms_used.get() | 1 << form);
    l.forms_judged.set(l.forms_judged.get() + 1);
    if bad.is_some() && l.form_error.borrow().is_none() {
        *l.form_error.borrow_mut() = bad;
    }
}

pub fn begin_run(log_format: bool, forms: u64, wire: bool) {
    local().wire.set(wire);
    local().forms.set(forms);
    local().forms_used.set(0);
    local().forms_judged.set(0);
    local().form_error.take();
    with(&local().armed, |a| a.borrow_mut().clear());
    with(&local().hooks, |h| h.borrow_mut().clear());
    with(&local().log_format, |l| l.set(log_format));
}

pub fn arm(f: Option<Fault>) {
    let Some(t) = simrt::task_id() else { return };
    with(&local().armed, |a| {
        let mut a = a.borrow_mut();
        if a.len() <= t {
            a.resize(t + 1, Slot::default());
        }
        a[t] = Slot { armed: f, fired: false };
    });
}

/// Disarms the task's fault; true if it struck.
pub fn disarm() -> bool {
    let Some(t) = simrt::task_id() else { return false };
    with(&local().armed, |a| a.borrow_mut().get_mut(t).map_or(false, |s| {
        s.armed = None;
        std::mem::take(&mut s.fired)
    }))
}

/// Sets the current fault aside while nested operations run in a callback.
pub fn suspend_fault() -> Option<Fault> {
    let t = simrt::task_id()?;
    with(&local().armed, |a| a.borrow_mut().get_mut(t).and_then(|s| s.armed.take()))
}

pub fn resume_fault(f: Option<Fault>) {
    let Some(t) = simrt::task_id() else { return };
    if f.is_some() {
        with(&local().armed, |a| a.borrow_mut()[t].armed = f);
    }
}

type Hook = (Site, u16, *const dyn Fn());

/// Runs `body`; when it reaches `site` for the n-th time, `hook` is run there first.
pub fn with_hook(site: Site, n: u16, hook: &dyn Fn(), body: impl FnOnce()) {
    let Some(t) = simrt::task_id() else { return body() };
    // The pointer is removed below, before the borrow ends.
    let p: *const dyn Fn() = unsafe { std::mem::transmute::<*const dyn Fn(), *const (dyn Fn() + 'static)>(hook as *const dyn Fn()) };
    with(&local().hooks, |h| {
        let mut h = h.borrow_mut();
        if h.len() <= t {
            h.resize(t + 1, None);
        }
        h[t] = Some((site, n, p));
    });
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(body));
    with(&local().hooks, |h| h.borrow_mut()[t] = None);
    if let Err(p) = r {
        std::panic::resume_unwind(p);
    }
}

fn run_hook(site: Site) {
    let Some(t) = simrt::task_id() else { return };
    let hook = with(&local().hooks, |h| {
        let mut h = h.borrow_mut();
        let slot = h.get_mut(t)?;
        match slot {
            Some((s, n, _)) if *s == site && *n > 0 => {
                *n -= 1;
                None
            }
            Some((s, ..)) if *s == site => slot.take(),
            _ => None,
        }
    });
    if let Some((_, _, f)) = hook {
        count(fired::REENTER);
        unsafe { (*f)() };
    }
}

/// Called at every injection site.
fn arrive(site: Site, kind: Kind) {
    if simrt::is_quiet() || std::thread::panicking() {
        return;
    }
    point(kind);
    run_hook(site);
    let Some(t) = simrt::task_id() else { return };
    let act = with(&local().armed, |a| {
        let mut a = a.borrow_mut();
        let s = a.get_mut(t)?;
        let f = s.armed.as_mut()?;
        if f.site != site {
            return None;
        }
        if f.n > 0 {
            f.n -= 1;
            return None;
        }
        let act = f.act;
        s.armed = None;
        if act == Act::Panic {
            s.fired = true;
        }
        Some(act)
    });
    match act {
        None => {}
        Some(Act::Stall(n)) => {
            count(if site == Site::Log { 4 } else { 5 });
            simrt::stall(n as u64);
        }
        Some(Act::Panic) => {
            count(match site {
                Site::Log => 0,
                Site::Iter => 1,
                Site::Key => 2,
                Site::Value => 3,
            });
            std::panic::panic_any(Injected);
        }
    }
}

pub fn at_iter() {
    arrive(Site::Iter, Kind::Callback)
}

// ---- logger -----------------------------------------------------------------------------

pub struct SimLogger;

impl log::Log for SimLogger {
    fn enabled(&self, m: &log::Metadata) -> bool {
        with(&local().worker, |w| w.get()) && m.target().starts_with("eth_trie_utils")
    }
    fn log(&self, r: &log::Record) {
        if !self.enabled(r.metadata()) || simrt::is_quiet() {
            return;
        }
        if with(&local().log_format, |l| l.get()) {
            let s = format!("{}", r.args());
            std::hint::black_box(s.len());
        }
        arrive(Site::Log, Kind::Log);
    }
    fn flush(&self) {}
}

/// Installs the logger and a panic hook that records instead of printing on workers.
pub fn install() {
    static LOGGER: SimLogger = SimLogger;
    let _ = log::set_logger(&LOGGER);
    log::set_max_level(log::LevelFilter::Trace);
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if with(&local().worker, |w| w.get()) {
            let msg = simrt::panic_text(info.payload());
            let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let short: String = msg.chars().take(160).collect();
            with(&local().last_panic, |p| *p.borrow_mut() = format!("{short} ({at})"));
        } else {
            old(info);
        }
    }));
}

pub fn set_worker(on: bool) {
    with(&local().worker, |w| w.set(on));
}

pub fn last_panic() -> String {
    with(&local().last_panic, |p| p.borrow().clone())
}

// ---- caller-supplied keys and values ----------------------------------------------------

pub struct SimKey<'a>(pub &'a [u8]);

impl ToNibbles for SimKey<'_> {
    fn to_nibbles(self) -> Nibbles {
        arrive(Site::Key, Kind::Callback);
        match local().forms.get() {
            0 => pack(self.0),
            seed if local().wire.get() => {
                let l = local();
                let mut r = forms::mix(seed, self.0, simrt::task_id().unwrap_or(0) as u64 + 8 * l.forms_judged.get());
                // Sent again until it arrives undamaged.
                for _ in 0..8 {
                    let (wire, fault, bad) = forms::receive(self.0, r);
                    judged(wire, bad);
                    match fault {
                        Some(f) => count(f),
                        None => break,
                    }
                    simrt::point(Kind::Callback);
                    r = forms::mix(r, self.0, 3);
                }
                pack(self.0)
            }
            seed => {
                let r = forms::mix(seed, self.0, simrt::task_id().unwrap_or(0) as u64);
                let (k, form, bad) = forms::key(self.0, r);
                judged(form, bad);
                k
            }
        }
    }
}

pub struct SimVal<'a>(pub &'a Ent);

impl From<SimVal<'_>> for ValOrHash {
    fn from(v: SimVal<'_>) -> Self {
        arrive(Site::Value, Kind::Callback);
        match (if local().wire.get() { 0 } else { local().forms.get() }, v.0) {
            (0, e) => raw_val(e),
            (seed, e @ Ent::V(b)) => form_of(e, forms::mix(seed, b, 1)),
            (seed, e @ Ent::H(b)) => form_of(e, forms::mix(seed, b, 2)),
        }
    }
}

fn form_of(e: &Ent, r: u64) -> ValOrHash {
    let (x, bad) = forms::val(e, r);
    judged(forms::N_FORMS + (matches!(x, ValOrHash::Hash(_)) as usize), bad);
    x
}

pub fn raw_val(v: &Ent) -> ValOrHash {
    match v {
        Ent::V(v) => ValOrHash::Val(v.clone()),
        Ent::H(h) => ValOrHash::Hash(H256(*h)),
    }
}

// ---- streams ----------------------------------------------------------------------------

/// Behaviour of one simulated stream.
#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct Io {
    /// Largest transfer per call (0: unlimited).
    #[serde(default)]
    pub chunk: u16,
    /// Every n-th call is interrupted (0: never).
    #[serde(default)]
    pub eintr: u16,
    /// Hard error once this many bytes were transferred.
    #[serde(default)]
    pub fail_at: Option<u32>,
}

pub struct SimWriter<'a> {
    pub io: &'a Io,
    pub out: Vec<u8>,
    calls: u64,
    pub failed: bool,
}

impl<'a> SimWriter<'a> {
    pub fn new(io: &'a Io) -> Self {
        SimWriter { io, out: vec![], calls: 0, failed: false }
    }
}

/// Later transfers of a stream are neither split nor scheduling points, so that huge files
/// do not dominate a run.
const SLOW_CALLS: u64 = 3000;

impl io::Write for SimWriter<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        let slow = self.calls < SLOW_CALLS;
        if slow {
            point(Kind::Io);
        }
        if slow && self.io.eintr > 0 && self.calls % self.io.eintr as u64 == 0 {
            count(fired::INT_WRITE);
            return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
        }
        let mut n = b.len();
        if slow && self.io.chunk > 0 && n > self.io.chunk as usize {
            n = self.io.chunk as usize;
            count(fired::SHORT_WRITE);
        }
        if let Some(at) = self.io.fail_at {
            let left = (at as usize).saturating_sub(self.out.len());
            if left == 0 && n > 0 {
                self.failed = true;
                count(fired::WRITE_ERR);
                return Err(io::Error::new(io::ErrorKind::Other, "no space left on device"));
            }
            n = n.min(left);
        }
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        point(Kind::Io);
        Ok(())
    }
}

pub struct SimReader<'a> {
    pub io: &'a Io,
    pub data: &'a [u8],
    pos: usize,
    calls: u64,
    pub failed: bool,
}

impl<'a> SimReader<'a> {
    pub fn new(io: &'a Io, data: &'a [u8]) -> Self {
        SimReader { io, data, pos: 0, calls: 0, failed: false }
    }
}

impl io::Read for SimReader<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        let slow = self.calls < SLOW_CALLS;
        if slow {
            point(Kind::Io);
        }
        if slow && self.io.eintr > 0 && self.calls % self.io.eintr as u64 == 0 {
            count(fired::INT_READ);
            return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
        }
        let mut n = b.len().min(self.data.len() - self.pos);
        if slow && self.io.chunk > 0 && n > self.io.chunk as usize {
            n = self.io.chunk as usize;
            count(fired::SHORT_READ);
        }
        if let Some(at) = self.io.fail_at {
            let left = (at as usize).saturating_sub(self.pos);
            if left == 0 && n > 0 {
                self.failed = true;
                count(fired::READ_ERR);
                return Err(io::Error::new(io::ErrorKind::Other, "input/output error"));
            }
            n = n.min(left);
        }
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
