//! Executes a plan inside the simulator and evaluates the oracles of one property.

use crate::faults::{self, fired, raw_val, Fault, Injected, Io, SimKey, SimReader, SimVal, SimWriter, Site};
use crate::model::*;
use crate::plan::*;
use eth_trie_utils::debug_tools::diff::{create_diff_between_tries, TrieDiff};
use eth_trie_utils::debug_tools::query::{get_path_from_query, DebugQueryParamsBuilder};
use eth_trie_utils::debug_tools::stats::{get_trie_stats, get_trie_stats_with_name};
use eth_trie_utils::partial_trie::{HashedPartialTrie, Node, PartialTrie, StandardTrie, WrappedNode};
use eth_trie_utils::trie_ops::ValOrHash;
use eth_trie_utils::trie_subsets::{create_trie_subset, create_trie_subsets};
use parking_lot::RwLock;
use serde::{de::DeserializeOwned, Serialize};
use simrt::{mix, point, Kind, Outcome};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::{Arc, Weak};

pub trait SimTrie: PartialTrie + Serialize + DeserializeOwned + Send + Sync + 'static {
    fn collect_from<'a, I: IntoIterator<Item = (SimKey<'a>, SimVal<'a>)>>(it: I) -> Self;
    fn diff(_: &Self, _: &Self) -> Option<TrieDiff>;
}
impl SimTrie for HashedPartialTrie {
    fn collect_from<'a, I: IntoIterator<Item = (SimKey<'a>, SimVal<'a>)>>(it: I) -> Self {
        it.into_iter().collect()
    }
    fn diff(a: &Self, b: &Self) -> Option<TrieDiff> {
        Some(create_diff_between_tries(a, b))
    }
}
impl SimTrie for StandardTrie {
    fn collect_from<'a, I: IntoIterator<Item = (SimKey<'a>, SimVal<'a>)>>(it: I) -> Self {
        it.into_iter().collect()
    }
    fn diff(_: &Self, _: &Self) -> Option<TrieDiff> {
        None
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Viol {
    /// Which oracle failed (kept fixed while shrinking).
    pub oracle: String,
    pub msg: String,
}

/// Ends a task after a violation was recorded.
pub struct Stop;
/// Ends a task that is killed by a fault.
struct Killed;

#[derive(Debug)]
pub enum Fail {
    Injected,
    Panic(String),
}

/// Calls library code; a panic is an answer, not the end of the run.
pub fn call<R>(f: impl FnOnce() -> R) -> Result<R, Fail> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| {
        if p.is::<Stop>() || p.is::<simrt::SimAbort>() || p.is::<Killed>() {
            resume_unwind(p)
        } else if p.is::<Injected>() {
            Fail::Injected
        } else {
            Fail::Panic(faults::last_panic())
        }
    })
}

/// Runs library code alone: no scheduling, no faults.
pub fn alone<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    simrt::quiet(|| match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) if p.is::<Stop>() || p.is::<simrt::SimAbort>() => resume_unwind(p),
        Err(_) => Err(faults::last_panic()),
    })
}

/// Hash of a trie of this structure that shares nothing with any other trie.
pub fn fresh_hash<N: SimTrie>(t: &RefNode) -> Option<H> {
    alone(|| rebuild::<N>(t).hash().0).ok()
}

pub struct Handle<N> {
    pub trie: N,
    /// Content this trie has by its history (C03) or by its nodes (all others).
    entries: Rc<Entries>,
    /// Nodes this trie had after the last change through this handle.
    tree: Rc<RefNode>,
    /// `tree` is the canonical tree of its entries.
    canon: bool,
    /// A trie of the same content that never saw a fault or a file.
    twin: Option<N>,
    /// Set when a change was made after some relative of this trie had been hashed.
    changed_after_hash: bool,
    hashed: Cell<bool>,
    lineage: usize,
    born: u64,
}

impl<N: SimTrie> Handle<N> {
    fn of(trie: N, w: &World<N>, lineage: usize) -> Self {
        let tree = to_ref(&trie);
        let entries = tree.entries();
        let canon = *canonical(&entries) == *tree;
        Handle {
            trie,
            entries: Rc::new(entries),
            tree,
            canon,
            twin: None,
            changed_after_hash: false,
            hashed: Cell::new(false),
            lineage,
            born: w.changes_of(lineage),
        }
    }

    fn resync(&mut self) {
        self.tree = to_ref(&self.trie);
        let e = self.tree.entries();
        self.canon = *canonical(&e) == *self.tree;
        self.entries = Rc::new(e);
    }
}

struct File {
    bytes: Vec<u8>,
    fmt: u8,
    tree: Rc<RefNode>,
    /// The writer reported success and the bytes are all there.
    complete: bool,
    altered: bool,
}

#[derive(Default, Clone)]
pub struct Counters {
    pub oracles: BTreeMap<&'static str, u64>,
    pub ops: BTreeMap<&'static str, u64>,
}

pub struct World<N> {
    pub prop: String,
    frozen: RefCell<Vec<Rc<Handle<N>>>>,
    guarded: RefCell<Vec<Rc<RwLock<Handle<N>>>>>,
    mail: RefCell<VecDeque<Handle<N>>>,
    left: RefCell<Vec<Handle<N>>>,
    files: RefCell<Vec<Option<Rc<File>>>>,
    pub viol: RefCell<Option<Viol>>,
    pub counters: RefCell<Counters>,
    pub fp: Cell<u64>,
    pub nontrivial: Cell<bool>,
    faulted: Cell<bool>,
    changes: RefCell<Vec<u64>>,
    /// Nodes below a root that has been hashed (kept alive, so that addresses are not reused).
    known: RefCell<HashMap<usize, WrappedNode<N>>>,
    /// Every node ever seen (C19).
    seen: RefCell<Vec<Weak<Box<N>>>>,
}

impl<N: SimTrie> World<N> {
    pub fn new(prop: &str) -> Self {
        World {
            prop: prop.into(),
            frozen: RefCell::default(),
            guarded: RefCell::default(),
            mail: RefCell::default(),
            left: RefCell::default(),
            files: RefCell::new((0..FILES).map(|_| None).collect()),
            viol: RefCell::new(None),
            counters: RefCell::default(),
            fp: Cell::new(1),
            nontrivial: Cell::new(false),
            faulted: Cell::new(false),
            changes: RefCell::default(),
            known: RefCell::default(),
            seen: RefCell::default(),
        }
    }
    fn changes_of(&self, l: usize) -> u64 {
        self.changes.borrow().get(l).copied().unwrap_or(0)
    }
    fn new_lineage(&self) -> usize {
        let mut c = self.changes.borrow_mut();
        c.push(0);
        c.len() - 1
    }
    pub fn on(&self, p: &str) -> bool {
        self.prop == p
    }
    pub fn note(&self, x: u64) {
        self.fp.set(mix(self.fp.get() ^ x));
    }
    pub fn note_bytes(&self, b: &[u8]) {
        let mut h = b.len() as u64;
        for c in b.chunks(8) {
            let mut w = [0; 8];
            w[..c.len()].copy_from_slice(c);
            h = mix(h ^ u64::from_le_bytes(w));
        }
        self.note(h);
    }
    pub fn stopped(&self) -> bool {
        self.viol.borrow().is_some()
    }
    pub fn fail(&self, oracle: &str, msg: String) -> ! {
        let mut v = self.viol.borrow_mut();
        if v.is_none() {
            *v = Some(Viol { oracle: oracle.into(), msg });
        }
        drop(v);
        resume_unwind(Box::new(Stop))
    }
    /// Counts an oracle evaluation and fails unless it holds.
    pub fn check(&self, oracle: &'static str, ok: bool, msg: impl FnOnce() -> String) {
        *self.counters.borrow_mut().oracles.entry(oracle).or_insert(0) += 1;
        if !ok {
            self.fail(oracle, msg());
        }
    }
    pub fn op(&self, name: &'static str) {
        *self.counters.borrow_mut().ops.entry(name).or_insert(0) += 1;
    }
}

enum Mut<'a> {
    Insert(&'a Key, &'a Val),
    Delete(&'a Key),
    Extend(&'a [(Key, Val)], &'a Reenter),
}

impl Mut<'_> {
    fn text(&self) -> String {
        match self {
            Mut::Insert(k, v) => format!("insert of {} = {}", nibs(&k.0), ent(&v.0)),
            Mut::Delete(k) => format!("delete of {}", nibs(&k.0)),
            Mut::Extend(kv, _) => {
                let l: Vec<String> = kv.iter().map(|(k, v)| format!("{} = {}", nibs(&k.0), ent(&v.0))).collect();
                format!("bulk insert of [{}]", l.join(", "))
            }
        }
    }
}

pub fn ent(e: &Ent) -> String {
    match e {
        Ent::V(v) if v.len() > 12 => format!("{}.. ({} bytes)", hex(&v[..8]), v.len()),
        Ent::V(v) => hex(v),
        Ent::H(h) => format!("hidden {}..", hex(&h[..4])),
    }
}

fn opt(v: &Option<Vec<u8>>) -> String {
    match v {
        None => "nothing".into(),
        Some(v) => ent(&Ent::V(v.clone())),
    }
}

pub fn show(e: &Entries) -> String {
    let l: Vec<String> = e.iter().take(12).map(|(k, v)| format!("{} = {}", nibs(k), ent(v))).collect();
    format!("{{{}{}}}", l.join(", "), if e.len() > 12 { ", .." } else { "" })
}

/// Iterator handed to the library by a caller whose callbacks can panic, stall and use
/// other handles.
struct Cb<'t, N: SimTrie, I> {
    task: &'t Task<'t, N>,
    inner: I,
    at: u16,
    re: &'t Reenter,
}

impl<N: SimTrie, I: Iterator> Iterator for Cb<'_, N, I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if !simrt::is_quiet() {
            for (at, ops) in self.re {
                if *at == self.at {
                    faults::count(fired::REENTER);
                    self.task.nested(ops);
                }
            }
            self.at += 1;
            faults::at_iter();
        }
        self.inner.next()
    }
}

pub struct Task<'w, N: SimTrie> {
    w: &'w World<N>,
    slots: RefCell<Vec<Option<Handle<N>>>>,
    in_guard: Cell<bool>,
    depth: Cell<u32>,
}

impl<'w, N: SimTrie> Task<'w, N> {
    fn new(w: &'w World<N>) -> Self {
        Task {
            w,
            slots: RefCell::new((0..SLOTS).map(|_| None).collect()),
            in_guard: Cell::new(false),
            depth: Cell::new(0),
        }
    }

    /// Runs a whole program; what is left in the slots goes to the final audit.
    fn program(&self, ops: &[Op]) {
        let r = catch_unwind(AssertUnwindSafe(|| {
            for o in ops {
                if self.w.stopped() {
                    return;
                }
                point(Kind::Op);
                self.step(o);
            }
        }));
        if let Err(p) = r {
            if p.is::<Killed>() {
                self.slots.borrow_mut().clear();
                return;
            }
            if !p.is::<Stop>() {
                resume_unwind(p);
            }
            return;
        }
        self.w.left.borrow_mut().extend(self.slots.borrow_mut().drain(..).flatten());
    }

    fn nested(&self, ops: &[Op]) {
        let f = faults::suspend_fault();
        self.depth.set(self.depth.get() + 1);
        let r = catch_unwind(AssertUnwindSafe(|| {
            for o in ops {
                if !self.w.stopped() {
                    self.step(o);
                }
            }
        }));
        self.depth.set(self.depth.get() - 1);
        if let Err(p) = r {
            resume_unwind(p);
        }
        faults::resume_fault(f);
    }

    fn put(&self, d: u8, h: Handle<N>) {
        let old = self.slots.borrow_mut()[d as usize % SLOTS].replace(h);
        drop(old);
    }

    fn lineage_of(&self, r: R) -> Option<usize> {
        match r {
            R::O(i) => self.slots.borrow()[i as usize % SLOTS].as_ref().map(|h| h.lineage),
            _ => None,
        }
    }

    /// Reads through a handle. None if there is no such handle now.
    fn with<T>(&self, r: R, f: impl FnOnce(&Handle<N>) -> T) -> Option<T> {
        match r {
            R::O(i) => {
                let i = i as usize % SLOTS;
                let h = self.slots.borrow_mut()[i].take()?;
                let out = f(&h);
                let mut s = self.slots.borrow_mut();
                if s[i].is_none() {
                    s[i] = Some(h);
                }
                Some(out)
            }
            R::F(i) => {
                let h = {
                    let fr = self.w.frozen.borrow();
                    if fr.is_empty() {
                        return None;
                    }
                    fr[i as usize % fr.len()].clone()
                };
                Some(f(&h))
            }
            R::G(i) => {
                if self.in_guard.get() {
                    return None;
                }
                let g = self.guard(i)?;
                let lock = g.read();
                self.in_guard.set(true);
                let out = catch_unwind(AssertUnwindSafe(|| f(&lock)));
                self.in_guard.set(false);
                drop(lock);
                Some(out.unwrap_or_else(|p| resume_unwind(p)))
            }
        }
    }

    fn guard(&self, i: u8) -> Option<Rc<RwLock<Handle<N>>>> {
        let g = self.w.guarded.borrow();
        if g.is_empty() {
            return None;
        }
        Some(g[i as usize % g.len()].clone())
    }

    fn with_mut<T>(&self, r: R, f: impl FnOnce(&mut Handle<N>) -> T) -> Option<T> {
        match r {
            R::O(i) => {
                let i = i as usize % SLOTS;
                let mut h = self.slots.borrow_mut()[i].take()?;
                let out = f(&mut h);
                let mut s = self.slots.borrow_mut();
                if s[i].is_none() {
                    s[i] = Some(h);
                }
                Some(out)
            }
            R::F(_) => None,
            R::G(i) => {
                if self.in_guard.get() {
                    return None;
                }
                let g = self.guard(i)?;
                let mut lock = g.write();
                self.in_guard.set(true);
                let out = catch_unwind(AssertUnwindSafe(|| f(&mut lock)));
                self.in_guard.set(false);
                drop(lock);
                Some(out.unwrap_or_else(|p| resume_unwind(p)))
            }
        }
    }

    /// Two handles at once. The guarded ones are locked in index order.
    fn with2<T>(&self, a: R, b: R, f: impl FnOnce(&Handle<N>, &Handle<N>) -> T) -> Option<T> {
        let idx = |r: R| match r {
            R::O(i) => (0, i as usize % SLOTS),
            R::F(i) => (1, i as usize % self.w.frozen.borrow().len().max(1)),
            R::G(i) => (2, i as usize % self.w.guarded.borrow().len().max(1)),
        };
        if idx(a) == idx(b) {
            return self.with(a, |h| f(h, h));
        }
        if let (R::G(_), R::G(_)) = (a, b) {
            // One lock at a time: compare against a clone of the first.
            let c = self.with(a, |h| Handle::of(h.trie.clone(), self.w, h.lineage))?;
            return self.with(b, |h| f(&c, h));
        }
        let mut out = None;
        if matches!(b, R::G(_)) {
            self.with(a, |x| self.with(b, |y| out = Some(f(x, y))));
        } else {
            self.with(b, |y| self.with(a, |x| out = Some(f(x, y))));
        }
        out
    }

    // ---- oracles ------------------------------------------------------------------------

    /// The trie still is what it was after the last change made through this handle.
    fn unchanged(&self, h: &Handle<N>, when: &str) {
        let w = self.w;
        if w.on("C02") || w.on("C08") || w.on("C11") {
            let others = w.changes_of(h.lineage) > h.born;
            if others && w.on("C02") {
                w.nontrivial.set(true);
            }
            let ok = same(&h.trie, &h.tree);
            w.check("handle keeps its nodes", ok, || {
                format!(
                    "{when}: a handle that nobody changed holds {} instead of {}",
                    show(&to_ref(&h.trie).entries()),
                    show(&h.tree.entries())
                )
            });
        }
    }

    /// (nodes not below a root hashed before, all nodes) of a trie, without empty ones.
    fn fresh_nodes(&self, t: &N) -> (u64, u64) {
        fn go<N: SimTrie>(w: &World<N>, n: &N, fresh: bool) -> (u64, u64) {
            let below = |c: &WrappedNode<N>| {
                let f = fresh && !w.known.borrow().contains_key(&(Arc::as_ptr(c) as usize));
                go(w, c, f)
            };
            let (f, t) = match &**n {
                Node::Empty => return (0, 0),
                Node::Branch { children, .. } => {
                    children.iter().map(below).fold((0, 0), |a, b| (a.0 + b.0, a.1 + b.1))
                }
                Node::Extension { child, .. } => below(child),
                _ => (0, 0),
            };
            (f + fresh as u64, t + 1)
        }
        go(self.w, t, true)
    }

    fn remember_nodes(&self, t: &N) {
        let mut todo: Vec<WrappedNode<N>> = vec![];
        let add = |n: &N, todo: &mut Vec<WrappedNode<N>>| match &**n {
            Node::Branch { children, .. } => {
                todo.extend(children.iter().filter(|c| !matches!(&*****c, Node::Empty)).cloned())
            }
            Node::Extension { child, .. } => todo.push(child.clone()),
            _ => {}
        };
        add(t, &mut todo);
        while let Some(n) = todo.pop() {
            if self.w.known.borrow_mut().insert(Arc::as_ptr(&n) as usize, n.clone()).is_none() {
                self.w.seen.borrow_mut().push(Arc::downgrade(&n));
                add(&n, &mut todo);
            }
        }
    }

    /// Addresses of the nodes below the root, without empty ones.
    fn addresses(t: &N) -> HashSet<usize> {
        fn go<N: SimTrie>(n: &N, out: &mut HashSet<usize>) {
            let mut below = |c: &WrappedNode<N>| {
                if !matches!(&****c, Node::Empty) && out.insert(Arc::as_ptr(c) as usize) {
                    go::<N>(c, out);
                }
            };
            match &**n {
                Node::Branch { children, .. } => children.iter().for_each(&mut below),
                Node::Extension { child, .. } => below(child),
                _ => {}
            }
        }
        let mut out = HashSet::new();
        go(t, &mut out);
        out
    }

    /// Number of nodes a lookup of `k` can visit.
    fn path_len(t: &N, k: &[u8]) -> u64 {
        let (mut n, mut k, mut len) = (t, k, 1);
        loop {
            match &**n {
                Node::Branch { children, .. } if !k.is_empty() => {
                    n = &children[k[0] as usize];
                    k = &k[1..];
                }
                Node::Extension { nibbles, child } if k.starts_with(&unpack(nibbles)) => {
                    k = &k[nibbles.count..];
                    n = child;
                }
                _ => return len,
            }
            len += 1;
        }
    }

    fn observe_hash(&self, h: &Handle<N>, when: &str) {
        let w = self.w;
        self.unchanged(h, when);
        let tree = to_ref(&h.trie);
        // Nodes no earlier hash() can have covered, and all nodes.
        let (fresh, total) = if w.on("C19") { self.fresh_nodes(&h.trie) } else { (0, 0) };
        let done = simrt::worked();
        let got = call(|| h.trie.hash().0);
        let done = simrt::worked() - done;
        h.hashed.set(true);
        let got = match got {
            Ok(g) => g,
            Err(Fail::Injected) => return,
            Err(Fail::Panic(m)) => {
                if ["C01", "C04", "C11"].contains(&&*w.prop) && h.canon {
                    w.fail("hash() panics", format!("{when}: hash() of {} panics: {m}", show(&h.entries)));
                }
                return;
            }
        };
        w.note_bytes(&got);
        if w.on("C19") {
            if total > 8 && fresh * 2 < total {
                w.nontrivial.set(true);
            }
            // Twice the nodes that are new, so that encoding a node a second time is no alarm.
            w.check("hashing again costs what changed", done <= 2 * fresh + 2, || {
                format!(
                    "{when}: hash() computed {done} hashes although only {fresh} of the {total} nodes of this trie were not \
                     part of a trie hashed before"
                )
            });
            self.remember_nodes(&h.trie);
        }
        if w.on("C01") {
            if h.changed_after_hash {
                w.nontrivial.set(true);
            }
            let want = tree.root();
            w.check("hash matches nodes", got == want, || {
                format!("{when}: hash() = {} but the nodes of this trie, {}, have root {}", hex(&got), show(&tree.entries()), hex(&want))
            });
        }
        if w.on("C04") && h.canon && !tree.has_hidden() {
            let e = tree.entries();
            if e.len() > 1 && h.changed_after_hash {
                w.nontrivial.set(true);
            }
            let want = canonical(&e).root();
            w.check("root is Ethereum's root", got == want, || {
                format!("{when}: hash() = {} but {} has the Merkle-Patricia root {}", hex(&got), show(&e), hex(&want))
            });
        }
        if w.on("C02") || w.on("C11") || (w.on("C08") && w.faulted.get()) || (w.on("C09") && h.twin.is_some()) {
            if let Some(want) = fresh_hash::<N>(&h.tree) {
                w.check("hash equals that of an untouched copy", got == want, || {
                    format!(
                        "{when}: hash() = {} but a copy of the same nodes ({}) that shares nothing hashes to {}",
                        hex(&got),
                        show(&h.entries),
                        hex(&want)
                    )
                });
            }
        }
    }

    fn lookup(&self, h: &Handle<N>, k: &[u8], f: Option<Fault>, when: &str) {
        let w = self.w;
        faults::arm(f);
        let got = call(|| h.trie.get(SimKey(k)).map(|v| v.to_vec()));
        faults::disarm();
        let got = match got {
            Err(Fail::Injected) => {
                w.faulted.set(true);
                return;
            }
            Ok(g) => Ok(g),
            Err(Fail::Panic(m)) => Err(m),
        };
        if let Ok(Some(v)) = &got {
            w.note_bytes(v);
        } else {
            w.note(got.is_ok() as u64);
        }
        if w.on("C03") && h.canon {
            let want = model_get(&h.entries, k).map(|v| v.to_vec());
            if h.entries.len() > 1 {
                w.nontrivial.set(true);
            }
            w.check("lookup answers like the map", got == Ok(want.clone()), || {
                format!(
                    "{when}: get({}) on {} gives {} instead of {}",
                    nibs(k),
                    show(&h.entries),
                    match &got {
                        Ok(g) => opt(g),
                        Err(m) => format!("a panic: {m}"),
                    },
                    opt(&want)
                )
            });
        }
        if w.on("C11") {
            let solo = alone(|| rebuild::<N>(&h.tree).get(pack(k)).map(|v| v.to_vec()));
            w.check("same answer as alone", got.is_err() == solo.is_err() && (got.is_err() || got == solo), || {
                format!("{when}: get({}) gives {got:?}, alone on an untouched copy {solo:?}", nibs(k))
            });
        }
        if w.on("C08") || w.on("C09") {
            if let Some(t) = &h.twin {
                let other = alone(|| t.get(pack(k)).map(|v| v.to_vec()));
                w.check("works like a fresh trie", got.is_err() == other.is_err() && (got.is_err() || got == other), || {
                    format!("{when}: get({}) gives {got:?}; on a fresh trie of the same content {other:?}", nibs(k))
                });
            }
        }
    }

    /// Keys worth asking for: all present ones and close relatives.
    fn probe_keys(e: &Entries, extra: &[Vec<u8>]) -> Vec<Vec<u8>> {
        let mut ks: Vec<Vec<u8>> = extra.to_vec();
        for k in e.keys().take(40) {
            ks.push(k.clone());
            if !k.is_empty() {
                ks.push(k[..k.len() - 1].to_vec());
                ks.push(k[..k.len() / 2].to_vec());
                let mut m = k.clone();
                let l = m.len() - 1;
                m[l] ^= 1;
                ks.push(m);
            }
            if k.len() < 64 {
                let mut m = k.clone();
                m.push(0);
                ks.push(m);
            }
        }
        ks.sort();
        ks.dedup();
        ks
    }

    fn run_mut(&self, t: &mut N, m: &Mut) -> Option<Vec<u8>> {
        match m {
            Mut::Insert(k, v) => {
                t.insert(SimKey(&k.0), SimVal(&v.0));
                None
            }
            Mut::Delete(k) => t.delete(SimKey(&k.0)),
            Mut::Extend(kv, re) => {
                t.extend(Cb { task: self, inner: kv.iter().map(|(k, v)| (SimKey(&k.0), SimVal(&v.0))), at: 0, re });
                None
            }
        }
    }

    fn mutate(&self, h: &mut Handle<N>, m: Mut, f: Option<Fault>) {
        let w = self.w;
        self.unchanged(h, &format!("before {}", m.text()));
        let before = h.tree.clone();
        let key = match &m {
            Mut::Insert(k, _) | Mut::Delete(k) if w.on("C19") => Some(*k),
            _ => None,
        };
        let old = key.map(|k| (Self::addresses(&h.trie), Self::path_len(&h.trie, &k.0)));
        faults::arm(f);
        let r = {
            let t = &mut h.trie;
            call(|| self.run_mut(t, &m))
        };
        faults::disarm();
        w.changes.borrow_mut()[h.lineage] += 1;
        h.born += 1;
        h.changed_after_hash |= h.hashed.get();
        match &r {
            Ok(v) => w.note(v.as_ref().map_or(1, |v| 2 + v.len() as u64)),
            Err(Fail::Injected) => {
                w.note(3);
                w.faulted.set(true);
            }
            Err(Fail::Panic(_)) => {
                w.note(4);
                faults::count(fired::REFUSED);
                w.faulted.set(true);
            }
        }
        if let (Some((old, path)), Some(k)) = (old, key) {
            let new = Self::addresses(&h.trie);
            let made = new.difference(&old).count() as u64;
            let bound = 2 * (path + Self::path_len(&h.trie, &k.0)) + 4;
            w.check("an update shares what it does not change", made <= bound, || {
                format!("{} made {made} new nodes for a path of {path} in a trie of {} nodes", m.text(), new.len())
            });
        }
        match &*w.prop {
            "C03" => self.mutated_c03(h, &m, r, &before),
            "C04" => {
                h.resync();
                let tree = h.tree.clone();
                if !tree.has_hidden() {
                    let ok = tree.entries_checked().is_some_and(|e| *canonical(&e) == *tree);
                    w.check("structure depends on content only", ok, || {
                        let e = tree.entries();
                        format!(
                            "after {}: the trie of {} has root {}, the Merkle-Patricia root of this content is {}",
                            m.text(),
                            show(&e),
                            hex(&tree.root()),
                            hex(&canonical(&e).root())
                        )
                    });
                }
            }
            "C08" => self.mutated_c08(h, &m, r, &before),
            "C09" => {
                self.twin_step(h, &m, r.as_ref().ok().cloned().map(Ok).unwrap_or(Err(())));
                h.resync();
                if f.is_some() {
                    h.twin = h.twin.take().map(|_| rebuild(&h.tree));
                }
            }
            _ => h.resync(),
        }
    }

    fn mutated_c03(&self, h: &mut Handle<N>, m: &Mut, r: Result<Option<Vec<u8>>, Fail>, before: &RefNode) {
        let w = self.w;
        if !h.canon {
            h.resync();
            return;
        }
        let mut e = (*h.entries).clone();
        let mut refused = false;
        let mut want = None;
        match m {
            Mut::Insert(k, v) => refused = !model_insert(&mut e, &k.0, &v.0),
            Mut::Delete(k) => match model_delete(&mut e, &k.0) {
                None => refused = true,
                Some(v) => want = v,
            },
            Mut::Extend(kv, _) => {
                for (k, v) in kv.iter() {
                    if !model_insert(&mut e, &k.0, &v.0) {
                        refused = true;
                        break;
                    }
                }
            }
        }
        if h.entries.len() > 1 {
            w.nontrivial.set(true);
        }
        match r {
            Ok(got) => {
                w.check("operations into hidden parts are refused", !refused, || {
                    format!("{} on {} was accepted although it reaches a hidden part", m.text(), show(&h.entries))
                });
                if let Mut::Delete(_) = m {
                    w.check("delete returns the deleted value", got == want, || {
                        format!("{} on {} returned {} instead of {}", m.text(), show(&h.entries), opt(&got), opt(&want))
                    });
                }
            }
            Err(Fail::Injected) => {
                // How much of it was done is C08's business.
                h.resync();
                return;
            }
            Err(Fail::Panic(p)) => {
                w.check("no unexpected panic", refused, || {
                    format!("{} on {} panics: {p}", m.text(), show(&h.entries))
                });
                if let Mut::Extend(..) = m {
                    h.resync();
                    return;
                }
                e = before.entries();
            }
        }
        h.entries = Rc::new(e);
        h.tree = to_ref(&h.trie);
        let ok = *h.tree == *canonical(&h.entries);
        if !ok {
            // Ask for everything before judging; a different shape alone is not an error here.
            let text = format!("after {}", m.text());
            let mut extra: Vec<Vec<u8>> = h.tree.entries().into_keys().collect();
            extra.extend(before.entries().into_keys());
            for k in Self::probe_keys(&h.entries, &extra) {
                self.lookup(h, &k, None, &text);
            }
        } else {
            // The touched keys and their neighbourhood through the public interface.
            let ks: Vec<Vec<u8>> = match m {
                Mut::Insert(k, _) | Mut::Delete(k) => vec![k.0.clone()],
                Mut::Extend(kv, _) => kv.iter().take(2).map(|x| x.0 .0.clone()).collect(),
            };
            let text = format!("after {}", m.text());
            for k in ks {
                self.lookup(h, &k, None, &text);
            }
        }
    }

    fn mutated_c08(&self, h: &mut Handle<N>, m: &Mut, r: Result<Option<Vec<u8>>, Fail>, before: &Rc<RefNode>) {
        let w = self.w;
        match r {
            Ok(v) => {
                self.twin_step(h, m, Ok(v));
                h.resync();
            }
            Err(e) => {
                w.nontrivial.set(true);
                // States the operation may have left behind: before, after, or a leading part.
                let mut ok = same(&h.trie, before);
                let mut allowed = vec![before.clone()];
                if !ok {
                    let mut t = rebuild::<N>(before);
                    let steps: Vec<Mut> = match m {
                        Mut::Insert(k, v) => vec![Mut::Insert(k, v)],
                        Mut::Delete(k) => vec![Mut::Delete(k)],
                        Mut::Extend(kv, _) => kv.iter().map(|(k, v)| Mut::Insert(k, v)).collect(),
                    };
                    for s in &steps {
                        if alone(|| self.run_mut(&mut t, s)).is_err() {
                            break;
                        }
                        let state = to_ref(&t);
                        ok |= same(&h.trie, &state);
                        allowed.push(state);
                    }
                }
                w.check("a failed operation is all or nothing", ok, || {
                    format!(
                        "{} failed ({}) and left {}; allowed: {}",
                        m.text(),
                        match e {
                            Fail::Injected => "injected panic".to_string(),
                            Fail::Panic(p) => p,
                        },
                        show(&to_ref(&h.trie).entries()),
                        allowed.iter().map(|a| show(&a.entries())).collect::<Vec<_>>().join(" or ")
                    )
                });
                h.resync();
                h.twin = Some(rebuild(&h.tree));
                self.observe_hash(h, &format!("after failed {}", m.text()));
            }
        }
    }

    /// Repeats a successful operation on the twin and compares.
    fn twin_step(&self, h: &mut Handle<N>, m: &Mut, r: Result<Option<Vec<u8>>, ()>) {
        let w = self.w;
        let Some(mut t) = h.twin.take() else { return };
        let other = alone(|| self.run_mut(&mut t, m));
        match (&r, &other) {
            (Err(()), _) => {}
            (Ok(a), Ok(b)) => {
                let same_state = *to_ref(&h.trie) == *to_ref(&t);
                w.check("works like a fresh trie", a == b && same_state, || {
                    format!(
                        "{} returned {} and left {}; a fresh trie of the same content returned {} and holds {}",
                        m.text(),
                        opt(a),
                        show(&to_ref(&h.trie).entries()),
                        opt(b),
                        show(&to_ref(&t).entries())
                    )
                });
                h.twin = Some(t);
            }
            (Ok(_), Err(p)) => w.check("works like a fresh trie", false, || {
                format!("{} succeeded but a fresh trie of the same content panics: {p}", m.text())
            }),
        }
    }

    // ---- operations -----------------------------------------------------------------------

    fn step(&self, op: &Op) {
        self.step_inner(op);
        if self.w.on("C14") {
            if let Some(e) = faults::take_form_error() {
                self.w.fail("the same in every form", e);
            }
        }
        if self.w.on("C15") {
            if let Some(e) = faults::take_form_error() {
                self.w.fail("damaged keys", e);
            }
        }
    }

    /// An operation that has just been done, n times more.
    fn quickly(&self, op: &Op, n: u32) {
        match op {
            Op::Insert { t, k, v, .. } => {
                self.with_mut(*t, |h| {
                    let mut i = 0;
                    while i < n && alone(|| h.trie.insert(pack(&k.0), faults::raw_val(&v.0))).is_ok() {
                        i += 1;
                    }
                });
            }
            Op::Get { t, k, .. } => {
                self.with(*t, |h| {
                    let _ = alone(|| (0..n).filter(|_| h.trie.get(pack(&k.0)).is_some()).count());
                });
            }
            _ => {}
        }
    }

    fn step_inner(&self, op: &Op) {
        let w = self.w;
        match op {
            Op::Insert { t, k, v, f } => {
                w.op("insert");
                self.with_mut(*t, |h| self.mutate(h, Mut::Insert(k, v), *f));
            }
            Op::Extend { t, kv, f, re } => {
                w.op("extend");
                self.with_mut(*t, |h| self.mutate(h, Mut::Extend(kv, re), *f));
            }
            Op::Delete { t, k, f } => {
                w.op("delete");
                self.with_mut(*t, |h| self.mutate(h, Mut::Delete(k), *f));
            }
            Op::Collect { d, kv, f, re } => {
                w.op("collect");
                faults::arm(*f);
                let r = call(|| {
                    N::collect_from(Cb {
                        task: self,
                        inner: kv.iter().map(|(k, v)| (SimKey(&k.0), SimVal(&v.0))),
                        at: 0,
                        re,
                    })
                });
                faults::disarm();
                if let Ok(t) = r {
                    let l = w.new_lineage();
                    let h = Handle::of(t, w, l);
                    if w.on("C03") {
                        let mut e = Entries::new();
                        let all = kv.iter().all(|(k, v)| model_insert(&mut e, &k.0, &v.0));
                        w.check("collect builds the map", all && e == *h.entries, || {
                            format!("collect of [{}] gives {}", Mut::Extend(kv, re).text(), show(&h.entries))
                        });
                    }
                    self.structure_c04(&h, "after collect");
                    self.put(*d, h);
                }
            }
            Op::Get { t, k, f } => {
                w.op("get");
                self.with(*t, |h| {
                    self.lookup(h, &k.0, *f, "get");
                    self.unchanged(h, "after get");
                });
            }
            Op::Hash { t } => {
                w.op("hash");
                self.with(*t, |h| self.observe_hash(h, "hash"));
            }
            Op::Clone { s, d } => {
                w.op("clone");
                let c = self.with(*s, |h| Handle {
                    trie: h.trie.clone(),
                    entries: h.entries.clone(),
                    tree: h.tree.clone(),
                    canon: h.canon,
                    twin: None,
                    changed_after_hash: h.changed_after_hash,
                    hashed: h.hashed.clone(),
                    lineage: h.lineage,
                    born: w.changes_of(h.lineage),
                });
                if let Some(c) = c {
                    self.put(*d, c);
                }
            }
            Op::Sub { s, path, d } => {
                w.op("sub-trie");
                let c = self.with(*s, |h| {
                    let mut n: &N = &h.trie;
                    let mut p = &path.0[..];
                    loop {
                        match &**n {
                            Node::Branch { children, .. } if !p.is_empty() => {
                                n = &children[p[0] as usize];
                                p = &p[1..];
                            }
                            Node::Extension { nibbles, child } => match p.strip_prefix(&unpack(nibbles)[..]) {
                                Some(rest) => {
                                    n = child;
                                    p = rest;
                                }
                                None => break,
                            },
                            _ => break,
                        }
                    }
                    let mut c = Handle::of(n.clone(), w, h.lineage);
                    c.hashed = h.hashed.clone();
                    c
                });
                if let Some(c) = c {
                    self.put(*d, c);
                }
            }
            Op::Rebuild { s, d } => {
                w.op("wrap node");
                let c = self.with(*s, |h| {
                    let node: &Node<N> = &h.trie;
                    let mut c = Handle::of(N::new(node.clone()), w, h.lineage);
                    c.hashed = h.hashed.clone();
                    c
                });
                if let Some(c) = c {
                    self.put(*d, c);
                }
            }
            Op::Edit { t, path, e } => {
                w.op("edit in place");
                self.edit(*t, &path.0, e);
            }
            Op::Subset { s, ks, d, f, re } => {
                w.op("subset");
                self.subset(*s, ks, *d, *f, re);
            }
            Op::Subsets { s, ks, d, f, re } => {
                w.op("subsets");
                self.subsets(*s, ks, *d, *f, re);
            }
            Op::Save { s, file, fmt, io, trunc, flip } => {
                w.op("save");
                self.save(*s, *file, *fmt, io, *trunc, *flip);
            }
            Op::Load { file, d, io } => {
                w.op("load");
                self.load(*file, *d, io);
            }
            Op::Iter { s, what, during } => {
                w.op("iterate");
                self.with(*s, |h| self.iterate(h, *what, during));
            }
            Op::Eq { a, b } => {
                w.op("compare");
                self.with2(*a, *b, |x, y| self.compare(x, y));
            }
            Op::Diff { a, b } => {
                w.op("diff");
                self.with2(*a, *b, |x, y| self.diff(x, y));
            }
            Op::Info { s, k } => {
                w.op("debug tools");
                self.with(*s, |h| self.info(h, k));
            }
            Op::During { op, value, n, ops } => {
                let site = if *value { Site::Value } else { Site::Key };
                faults::with_hook(site, *n, &|| self.nested(ops), || self.step(op));
            }
            Op::Repeat { ops, n } => {
                let quick = if *n < 1000 { 0 } else { n - 20 };
                for i in 0..*n - quick {
                    if i == 10 {
                        for o in ops {
                            self.quickly(o, quick);
                        }
                    }
                    for o in ops {
                        if !w.stopped() {
                            self.step(o);
                        }
                    }
                }
            }
            Op::Drop { d } => {
                let h = self.slots.borrow_mut()[*d as usize % SLOTS].take();
                drop(h);
            }
            Op::Publish { s, g } => {
                if self.in_guard.get() {
                    return;
                }
                let Some(g) = self.guard(*g) else { return };
                let mut lock = g.write();
                let h = self.slots.borrow_mut()[*s as usize % SLOTS].take();
                if let Some(h) = h {
                    let old = std::mem::replace(&mut *lock, h);
                    drop(lock);
                    self.put(*s, old);
                }
            }
            Op::Send { s } => {
                let h = self.slots.borrow_mut()[*s as usize % SLOTS].take();
                if let Some(h) = h {
                    w.mail.borrow_mut().push_back(h);
                }
            }
            Op::Recv { d } => {
                let h = w.mail.borrow_mut().pop_front();
                if let Some(h) = h {
                    self.put(*d, h);
                }
            }
            Op::Stall { n } => {
                faults::count(fired::TASK_STALL);
                simrt::stall(*n as u64);
            }
            Op::Freeze { s } => {
                let h = self.slots.borrow_mut()[*s as usize % SLOTS].take();
                if let Some(h) = h {
                    w.frozen.borrow_mut().push(Rc::new(h));
                }
            }
            Op::Guard { s } => {
                let h = self.slots.borrow_mut()[*s as usize % SLOTS].take();
                if let Some(h) = h {
                    w.guarded.borrow_mut().push(Rc::new(RwLock::new(h)));
                }
            }
            Op::Die => {
                faults::count(fired::KILL);
                resume_unwind(Box::new(Killed));
            }
        }
    }

    fn structure_c04(&self, h: &Handle<N>, when: &str) {
        let w = self.w;
        if w.on("C04") && !h.tree.has_hidden() {
            w.check("structure depends on content only", h.canon, || {
                format!(
                    "{when}: the trie of {} has root {}, the Merkle-Patricia root of this content is {}",
                    show(&h.entries),
                    hex(&h.tree.root()),
                    hex(&canonical(&h.entries).root())
                )
            });
        }
    }

    fn edit(&self, t: u8, path: &[u8], e: &Edit) {
        let w = self.w;
        let other = match e {
            Edit::Graft(r) | Edit::GraftNode(r) => {
                if self.lineage_of(*r).is_none() && matches!(r, R::O(_)) {
                    return;
                }
                self.with(*r, |h| h.trie.clone())
            }
            _ => None,
        };
        match e {
            Edit::Swap(o) => {
                let (i, j) = (t as usize % SLOTS, *o as usize % SLOTS);
                if i == j {
                    return;
                }
                let mut s = self.slots.borrow_mut();
                let (Some(mut a), Some(mut b)) = (s[i].take(), s[j].take()) else { return };
                drop(s);
                let r = call(|| std::mem::swap::<Node<N>>(&mut a.trie, &mut b.trie));
                for h in [&mut a, &mut b] {
                    h.resync();
                    h.twin = None;
                    w.changes.borrow_mut()[h.lineage] += 1;
                    h.born += 1;
                    h.changed_after_hash |= h.hashed.get();
                }
                drop(r);
                self.put(t, a);
                self.put(*o, b);
                return;
            }
            Edit::Take(d) => {
                let l = w.new_lineage();
                let c = self.with_mut(R::O(t), |h| {
                    let n: Node<N> = std::mem::take::<Node<N>>(&mut h.trie);
                    h.twin = None;
                    w.changes.borrow_mut()[h.lineage] += 1;
                    h.born += 1;
                    h.changed_after_hash |= h.hashed.get();
                    h.resync();
                    let mut c = Handle::of(N::new(n), w, l);
                    c.hashed = h.hashed.clone();
                    c
                });
                if let Some(c) = c {
                    if *d as usize % SLOTS != t as usize % SLOTS {
                        self.put(*d, c);
                    }
                }
                return;
            }
            _ => {}
        }
        self.with_mut(R::O(t), |h| {
            self.unchanged(h, "before an edit");
            // How many steps of the path exist?
            let tree = to_ref(&h.trie);
            let mut at: &RefNode = &tree;
            let mut parent: Option<&RefNode> = None;
            let mut steps = 0;
            let mut used = 0;
            loop {
                let next = match at {
                    RefNode::Branch(ch, _) if used < path.len() => {
                        let c = &ch[path[used] as usize];
                        used += 1;
                        c
                    }
                    RefNode::Ext(n, c) if path[used..].starts_with(n) => {
                        used += n.len();
                        c
                    }
                    _ => break,
                };
                parent = Some(at);
                at = next;
                steps += 1;
            }
            // Only edits that leave a well-formed trie.
            let allowed = match e {
                Edit::Value(_) => matches!(at, RefNode::Leaf(..) | RefNode::Branch(..)),
                Edit::Hide => at.hashed().is_ok() && !matches!(at, RefNode::Hash(_)),
                Edit::Graft(_) | Edit::GraftNode(_) => other.as_ref().is_some_and(|o| {
                    let o = to_ref(o);
                    used + o.max_len() <= 64
                        && match parent {
                            None => true,
                            Some(RefNode::Branch(..)) => !o.is_empty(),
                            _ => matches!(&*o, RefNode::Branch(..)),
                        }
                }),
                Edit::Share(..) => matches!(at, RefNode::Branch(..)),
                Edit::Clear(n) => match at {
                    RefNode::Branch(ch, v) => {
                        let left = ch.iter().enumerate().filter(|(i, c)| *i != *n as usize && !c.is_empty()).count();
                        left + !v.is_empty() as usize >= 2
                    }
                    _ => false,
                },
                _ => true,
            };
            if !allowed {
                return;
            }
            let r = call(|| {
                let n = descend(&mut h.trie, path, steps);
                match e {
                    Edit::Value(v) => {
                        if let Ent::V(x) = &v.0 {
                            match &mut **n {
                                Node::Leaf { value, .. } | Node::Branch { value, .. } => *value = x.clone(),
                                _ => {}
                            }
                        }
                    }
                    Edit::Hide => {
                        let hash = n.hash();
                        **n = Node::Hash(hash);
                    }
                    Edit::Graft(_) => *n = other.unwrap(),
                    Edit::GraftNode(_) => {
                        let o: &Node<N> = other.as_ref().unwrap();
                        **n = o.clone();
                    }
                    Edit::Share(i, j) => {
                        if let Node::Branch { children, .. } = &mut **n {
                            let full: Vec<usize> = (0..16).filter(|i| !matches!(&***children[*i], Node::Empty)).collect();
                            if !full.is_empty() {
                                let from = full[*i as usize % full.len()];
                                // Often a neighbour.
                                let to = if *j < 8 { (from + 1) % 16 } else { *j as usize };
                                children[to] = children[from].clone();
                            }
                        }
                    }
                    Edit::Clear(i) => {
                        if let Node::Branch { children, .. } = &mut **n {
                            children[*i as usize] = Arc::new(Box::new(N::new(Node::Empty)));
                        }
                    }
                    _ => {}
                }
            });
            drop(r);
            w.changes.borrow_mut()[h.lineage] += 1;
            h.born += 1;
            h.changed_after_hash |= h.hashed.get();
            h.twin = None;
            h.resync();
        });
    }

    fn key_iter<'t>(&'t self, ks: &'t [Key], re: &'t Reenter) -> Cb<'t, N, impl Iterator<Item = SimKey<'t>>> {
        Cb { task: self, inner: ks.iter().map(|k| SimKey(&k.0)), at: 0, re }
    }

    fn solo_subset(tree: &RefNode, ks: &[Key]) -> Result<Option<Rc<RefNode>>, String> {
        alone(|| create_trie_subset(&rebuild::<N>(tree), ks.iter().map(|k| pack(&k.0))).ok().map(|t| to_ref(&t)))
    }

    fn subset(&self, s: R, ks: &[Key], d: u8, f: Option<Fault>, re: &Reenter) {
        let w = self.w;
        let c = self.with(s, |h| {
            let tree = to_ref(&h.trie);
            faults::arm(f);
            let r = call(|| create_trie_subset(&h.trie, self.key_iter(ks, re)).ok());
            let hit = faults::disarm();
            if hit {
                w.faulted.set(true);
            }
            self.unchanged(h, "after a subset request");
            w.note(matches!(r, Ok(Some(_))) as u64);
            let list = || ks.iter().map(|k| nibs(&k.0)).collect::<Vec<_>>().join(", ");
            if w.on("C05") && h.canon {
                w.check("base unchanged", same(&h.trie, &tree), || {
                    format!("a subset request for [{}] changed the base to {}", list(), show(&to_ref(&h.trie).entries()))
                });
                let keys: Vec<Vec<u8>> = ks.iter().map(|k| k.0.clone()).collect();
                let want = model_subset(&tree, &keys);
                match (&r, &want) {
                    (Err(Fail::Injected), _) => {}
                    (Err(Fail::Panic(m)), _) => w.fail(
                        "subset panics",
                        format!("a subset of {} for [{}] panics: {m}", show(&h.entries), list()),
                    ),
                    (Ok(None), Expected::Tree(_)) => w.fail(
                        "subset refused without reason",
                        format!("a subset of {} for [{}] is refused", show(&h.entries), list()),
                    ),
                    (Ok(Some(_)), Expected::Refused) => w.fail(
                        "subset into a hidden part not refused",
                        format!("a subset of {} for [{}] is granted", show(&h.entries), list()),
                    ),
                    (Ok(None), _) => w.check("subset refused", true, String::new),
                    (Ok(Some(t)), Expected::Tree(e) | Expected::Either(e)) => {
                        if h.entries.len() > 1 && !ks.is_empty() {
                            w.nontrivial.set(true);
                        }
                        self.subset_ok(h, &tree, t, e, ks);
                    }
                }
            }
            if w.on("C11") {
                let solo = Self::solo_subset(&tree, ks);
                let ok = match (&r, &solo) {
                    (Err(Fail::Injected), _) => true,
                    (Err(_), Err(_)) => true,
                    (Ok(a), Ok(b)) => a.as_ref().map(|a| to_ref(a)) == *b,
                    _ => false,
                };
                w.check("same answer as alone", ok, || {
                    format!("a subset of {} for [{}] differs from the one made alone", show(&h.entries), list())
                });
            }
            let c = Handle::of(r.ok().flatten()?, w, w.new_lineage());
            c.hashed.set(true);
            Some(c)
        });
        if let Some(Some(c)) = c {
            self.put(d, c);
        }
    }

    fn subset_ok(&self, h: &Handle<N>, base: &RefNode, t: &N, want: &RefNode, ks: &[Key]) {
        let w = self.w;
        let list = || ks.iter().map(|k| nibs(&k.0)).collect::<Vec<_>>().join(", ");
        if let Ok(got) = call(|| t.hash().0) {
            let root = base.root();
            w.check("subset keeps the root", got == root, || {
                format!("a subset of {} for [{}] has root {} instead of {}", show(&h.entries), list(), hex(&got), hex(&root))
            });
        }
        for k in ks {
            let a = call(|| t.get(pack(&k.0)).map(|v| v.to_vec()));
            let b = call(|| h.trie.get(pack(&k.0)).map(|v| v.to_vec()));
            if let (Ok(a), Ok(b)) = (&a, &b) {
                w.check("subset answers its keys", a == b, || {
                    format!("get({}) on the subset of {} for [{}] gives {}, the base gives {}", nibs(&k.0), show(&h.entries), list(), opt(a), opt(b))
                });
            } else {
                w.check("subset answers its keys", a.is_err() == b.is_err(), || {
                    format!("get({}) on the subset of {} for [{}] panics", nibs(&k.0), show(&h.entries), list())
                });
            }
        }
        w.check("subset hides all it can and nothing else", same(t, want), || {
            format!(
                "a subset of {} for [{}] is {} instead of {}",
                show(&h.entries),
                list(),
                show(&to_ref(t).entries()),
                show(&want.entries())
            )
        });
    }

    fn subsets(&self, s: R, groups: &[Vec<Key>], d: u8, f: Option<Fault>, re: &Reenter) {
        let w = self.w;
        let none: Reenter = vec![];
        let c = self.with(s, |h| {
            let tree = to_ref(&h.trie);
            faults::arm(f);
            let r = call(|| {
                create_trie_subsets(
                    &h.trie,
                    Cb { task: self, inner: groups.iter().map(|g| self.key_iter(g, &none)), at: 0, re },
                )
                .ok()
            });
            if faults::disarm() {
                w.faulted.set(true);
            }
            self.unchanged(h, "after a batch subset request");
            w.note(matches!(r, Ok(Some(_))) as u64);
            let list = || {
                groups
                    .iter()
                    .map(|g| format!("[{}]", g.iter().map(|k| nibs(&k.0)).collect::<Vec<_>>().join(", ")))
                    .collect::<Vec<_>>()
                    .join(", ")
            };
            if (w.on("C07") || w.on("C05") || w.on("C11")) && h.canon {
                let solo: Vec<_> = groups.iter().map(|g| Self::solo_subset(&tree, g)).collect();
                if groups.len() > 1 && w.on("C07") && h.entries.len() > 1 {
                    w.nontrivial.set(true);
                }
                let any_refused = solo.iter().any(|x| matches!(x, Ok(None)));
                let any_panic = solo.iter().any(|x| x.is_err());
                match &r {
                    Err(Fail::Injected) => {}
                    Err(Fail::Panic(m)) => w.check("batch answers like single requests", any_panic, || {
                        format!("a batch of subsets of {} for {} panics ({m}); single requests do not", show(&h.entries), list())
                    }),
                    Ok(None) => w.check("batch answers like single requests", any_refused || any_panic, || {
                        format!("a batch of subsets of {} for {} is refused; single requests are not", show(&h.entries), list())
                    }),
                    Ok(Some(v)) => {
                        w.check("batch answers like single requests", !any_refused && v.len() == groups.len(), || {
                            format!(
                                "a batch of subsets of {} for {} returns {} tries; single requests: {} refused",
                                show(&h.entries),
                                list(),
                                v.len(),
                                solo.iter().filter(|x| matches!(x, Ok(None))).count()
                            )
                        });
                        for (i, (t, alone)) in v.iter().zip(&solo).enumerate() {
                            if let Ok(Some(a)) = alone {
                                w.check("batch subset equals the single one", same(t, a), || {
                                    format!(
                                        "subset {i} of a batch for {} of {} is {}; requested alone it is {}",
                                        list(),
                                        show(&h.entries),
                                        show(&to_ref(t).entries()),
                                        show(&a.entries())
                                    )
                                });
                                if !w.on("C11") {
                                    if let Ok(got) = call(|| t.hash().0) {
                                        let root = tree.root();
                                        w.check("batch subset keeps the root", got == root, || {
                                            format!("subset {i} of a batch for {} of {} has root {} instead of {}", list(), show(&h.entries), hex(&got), hex(&root))
                                        });
                                    }
                                }
                            }
                        }
                    }
                }
            }
            let mut v = r.ok().flatten()?;
            let t = v.pop()?;
            let c = Handle::of(t, w, w.new_lineage());
            c.hashed.set(true);
            Some(c)
        });
        if let Some(Some(c)) = c {
            self.put(d, c);
        }
    }

    fn iterate(&self, h: &Handle<N>, what: u8, during: &[(u16, Op)]) {
        let w = self.w;
        self.unchanged(h, "before iterating");
        let tree = to_ref(&h.trie);
        let entries = tree.entries();
        let limit = entries.len() + 3;
        let conv = |v: ValOrHash| match v {
            ValOrHash::Val(v) => Ent::V(v),
            ValOrHash::Hash(h) => Ent::H(h.0),
        };
        type Item = (Option<Vec<u8>>, Option<Ent>);
        let changes = w.changes_of(h.lineage);
        let r = call(|| {
            let mut it: Box<dyn Iterator<Item = Item> + '_> = match what % 3 {
                0 => Box::new(h.trie.items().map(|(k, v)| (Some(unpack(&k)), Some(conv(v))))),
                1 => Box::new(h.trie.keys().map(|k| (Some(unpack(&k)), None))),
                _ => Box::new(h.trie.values().map(|v| (None, Some(conv(v))))),
            };
            let mut out: Vec<Item> = vec![];
            let mut i = 0;
            loop {
                for (at, o) in during {
                    if *at == i {
                        self.nested(std::slice::from_ref(o));
                    }
                }
                i += 1;
                point(Kind::Callback);
                match it.next() {
                    Some(x) => out.push(x),
                    None => break,
                }
                if out.len() > limit {
                    break;
                }
            }
            out
        });
        let moved = w.changes_of(h.lineage) > changes;
        w.note(r.as_ref().map_or(0, |v| v.len() as u64));
        if w.on("C12") && h.canon {
            if entries.len() > 1 && (moved || tree.has_hidden() || tree.depth() > 2) {
                w.nontrivial.set(true);
            }
            match &r {
                Err(Fail::Injected) => {}
                Err(Fail::Panic(m)) => w.fail("iteration panics", format!("iterating over {} panics: {m}", show(&entries))),
                Ok(out) => {
                    if what % 3 == 0 {
                        let mut got = Entries::new();
                        let mut dup = false;
                        for (k, v) in out {
                            dup |= got.insert(k.clone().unwrap(), v.clone().unwrap()).is_some();
                        }
                        w.check("iteration yields every entry once", !dup && got == entries, || {
                            format!(
                                "iterating over {} yields {}{}",
                                show(&entries),
                                show(&got),
                                if dup { " and repeats entries" } else { "" }
                            )
                        });
                    }
                    // keys() and values() list the same entries in the order of items().
                    if let Ok(order) = alone(|| {
                        rebuild::<N>(&tree).items().take(limit).map(|(k, v)| (unpack(&k), conv(v))).collect::<Vec<_>>()
                    }) {
                        let ok = out.len() == order.len()
                            && out.iter().zip(&order).all(|(a, b)| {
                                a.0.as_ref().map_or(true, |k| *k == b.0) && a.1.as_ref().map_or(true, |v| *v == b.1)
                            });
                        w.check("items, keys and values agree", ok, || {
                            format!("iterator kind {} over {} yields {out:?}, items() alone yields {order:?}", what % 3, show(&entries))
                        });
                    }
                }
            }
        }
        if w.on("C02") || w.on("C11") {
            if moved && w.on("C02") {
                w.nontrivial.set(true);
            }
            let solo = alone(|| {
                let t = rebuild::<N>(&tree);
                let v: Vec<Item> = match what % 3 {
                    0 => t.items().take(limit + 1).map(|(k, v)| (Some(unpack(&k)), Some(conv(v)))).collect(),
                    1 => t.keys().take(limit + 1).map(|k| (Some(unpack(&k)), None)).collect(),
                    _ => t.values().take(limit + 1).map(|v| (None, Some(conv(v)))).collect(),
                };
                v
            });
            if let (Ok(a), Ok(b)) = (&r, &solo) {
                w.check("iterator is a snapshot", a == b, || {
                    format!("iterating over {} while others change their tries yields {a:?}; alone {b:?}", show(&entries))
                });
            }
        }
        self.unchanged(h, "after iterating");
    }

    fn compare(&self, a: &Handle<N>, b: &Handle<N>) {
        let w = self.w;
        let (ta, tb) = (to_ref(&a.trie), to_ref(&b.trie));
        let r = call(|| a.trie == b.trie);
        w.note(matches!(r, Ok(true)) as u64);
        if w.on("C11") || w.on("C02") {
            let (xa, xb) = if w.on("C02") { (&a.tree, &b.tree) } else { (&ta, &tb) };
            let solo = alone(|| rebuild::<N>(xa) == rebuild::<N>(xb));
            w.check("same answer as alone", r.as_ref().ok() == solo.as_ref().ok(), || {
                format!("comparing {} and {} gives {r:?}, alone {solo:?}", show(&ta.entries()), show(&tb.entries()))
            });
        }
        if w.on("C11") && !matches!(r, Err(Fail::Injected)) {
            w.check("equal nodes, equal tries", matches!(r, Ok(x) if x == (ta == tb)), || {
                format!("comparing {} and {} gives {r:?}", show(&ta.entries()), show(&tb.entries()))
            });
            if let Some(o) = other_hidden(&ta) {
                let other = rebuild::<N>(&o);
                let r = call(|| (a.trie == other, other == a.trie));
                w.check("different nodes, different tries", !matches!(r, Ok(x) if x != (false, false)), || {
                    format!("comparing {} and {} gives {r:?}", show(&ta.entries()), show(&o.entries()))
                });
            }
        }
        if w.on("C04") && a.canon && b.canon && !ta.has_hidden() && !tb.has_hidden() {
            let want = ta.entries() == tb.entries();
            w.nontrivial.set(true);
            w.check("equal content, equal tries", matches!(r, Ok(x) if x == want), || {
                format!("comparing {} and {} gives {r:?}", show(&ta.entries()), show(&tb.entries()))
            });
            let e = ta.entries();
            let pool = pool_of(&a.trie, &ta, e.len());
            for (i, o) in near_ones(&ta, &e).into_iter().enumerate() {
                let other = rebuild_with::<N>(&canonical(&o), if i % 2 == 0 { &pool } else { &[] });
                let r = call(|| (a.trie == other, other == a.trie));
                w.check("different content, different tries", matches!(r, Ok((false, false))), || {
                    format!("comparing {} and {} gives {r:?}", show(&e), show(&o))
                });
            }
        }
        self.unchanged(a, "after a comparison");
        self.unchanged(b, "after a comparison");
    }

    fn diff(&self, a: &Handle<N>, b: &Handle<N>) {
        let w = self.w;
        let (ta, tb) = (to_ref(&a.trie), to_ref(&b.trie));
        self.diff_of(&a.trie, &b.trie, &ta, &tb, a.canon && b.canon);
        if w.on("C13") && a.canon && !ta.has_hidden() {
            let e = ta.entries();
            let pool = pool_of(&a.trie, &ta, e.len());
            for (i, o) in near_ones(&ta, &e).into_iter().enumerate() {
                let to = canonical(&o);
                self.diff_of(&a.trie, &rebuild_with::<N>(&to, if i % 2 == 0 { &pool } else { &[] }), &ta, &to, true);
            }
        }
        if let (true, Some(o)) = (w.on("C13") && a.canon, other_hidden(&ta)) {
            self.diff_of(&a.trie, &rebuild::<N>(&o), &ta, &o, true);
        }
        self.unchanged(a, "after a diff");
        self.unchanged(b, "after a diff");
    }

    fn diff_of(&self, a: &N, b: &N, ta: &Rc<RefNode>, tb: &Rc<RefNode>, canon: bool) {
        let w = self.w;
        let r = call(|| N::diff(a, b));
        w.note(matches!(&r, Ok(Some(d)) if d.latest_diff_res.is_some()) as u64);
        if w.on("C13") && canon {
            let differ = ta.root() != tb.root();
            if differ && ta.entries().len() + tb.entries().len() > 2 {
                w.nontrivial.set(true);
            }
            let pair = || format!("{} and {}", show(&ta.entries()), show(&tb.entries()));
            match &r {
                Err(Fail::Injected) | Ok(None) => {}
                Err(Fail::Panic(m)) => w.fail("diff panics", format!("the diff of {} panics: {m}", pair())),
                Ok(Some(d)) => {
                    w.check("difference reported iff roots differ", d.latest_diff_res.is_some() == differ, || {
                        format!("the diff of {} reports {} but the roots are {}", pair(), d, if differ { "different" } else { "equal" })
                    });
                    if let Some(p) = &d.latest_diff_res {
                        let k = unpack(&p.key);
                        let (na, nb) = (ta.node_at(&k), tb.node_at(&k));
                        let real = matches!((na, nb), (Some(x), Some(y)) if x.root() != y.root());
                        w.check("reported difference is real", real, || {
                            format!("the diff of {} names position {}, where the tries do not differ or have no node", pair(), nibs(&k))
                        });
                        let way = way_to(ta, &k);
                        let (path, depth) = (format!("{}", p.path), p.depth);
                        w.check("path and depth lead to the difference", path == way.join(" --> ") && depth == way.len(), || {
                            format!("the diff of {} gives the path ({path}) and depth {depth} for position {}, reached by {way:?}", pair(), nibs(&k))
                        });
                        let all = format!("{d}");
                        for (n, i) in [(na.unwrap(), &p.a_info), (nb.unwrap(), &p.b_info)] {
                            let t = format!("{i}");
                            w.check("the printed difference says all of it", all.contains(&hex(&n.root())) && all.contains(&path), || {
                                format!("the diff of {} prints as {all} without the path ({path}) or the node {t}", pair())
                            });
                            let mut ok = t.contains(&hex(&n.root())) && t.contains(&format!("Node type: {}", n.kind()));
                            match n {
                                RefNode::Leaf(_, v) => ok &= t.contains(&format!("0x{}", hex(v))),
                                RefNode::Branch(_, v) if !v.is_empty() => ok &= t.contains(&format!("0x{}", hex(v))),
                                _ => {}
                            }
                            let mut full = k.clone();
                            match n {
                                RefNode::Leaf(x, _) | RefNode::Ext(x, _) => full.extend_from_slice(x),
                                _ => {}
                            }
                            ok &= t.contains(&format!("(key: {:x} ", pack(&full)));
                            w.check("difference describes both nodes", ok, || {
                                format!("the diff of {} describes the {} node at {} as {t}", pair(), n.kind(), nibs(&k))
                            });
                        }
                    }
                }
            }
        }
        if w.on("C13") || w.on("C11") {
            let solo = alone(|| N::diff(&rebuild::<N>(ta), &rebuild::<N>(tb)));
            let ok = match (&r, &solo) {
                (Err(_), Err(_)) => true,
                (Ok(x), Ok(y)) => x == y,
                _ => false,
            };
            w.check("same diff as alone", ok, || {
                format!("the diff of {} and {} is {r:?}, alone on untouched copies {solo:?}", show(&ta.entries()), show(&tb.entries()))
            });
        }
    }

    fn info(&self, h: &Handle<N>, k: &Key) {
        let w = self.w;
        let text = |t: &N, k: &Key| {
            let stats = format!("{}", get_trie_stats(t));
            let q = catch_unwind(AssertUnwindSafe(|| {
                let q = DebugQueryParamsBuilder::default().build(pack(&k.0));
                format!("{}", get_path_from_query(t, q))
            }));
            (stats, q.ok())
        };
        let r = call(|| text(&h.trie, k));
        let dbg = call(|| format!("{:?}", h.trie).len());
        drop(dbg);
        w.note(r.is_ok() as u64);
        if w.on("C17") {
            self.stats(h);
        }
        if w.on("C18") {
            self.path(h, k);
        }
        if w.on("C11") {
            let tree = to_ref(&h.trie);
            let solo = alone(|| text(&rebuild::<N>(&tree), k));
            let ok = match (&r, &solo) {
                (Ok(a), Ok(b)) => a == b,
                (Err(_), Err(_)) => true,
                _ => false,
            };
            w.check("same answer as alone", ok, || format!("debug output {r:?}, alone on an untouched copy {solo:?}"));
        }
        self.unchanged(h, "after debug output");
    }

    /// Statistics, and their comparison with those of a near trie, against the nodes.
    fn stats(&self, h: &Handle<N>) {
        let w = self.w;
        let tree = to_ref(&h.trie);
        let want = Stats::of(&tree);
        if want.total() > 1 {
            w.nontrivial.set(true);
        }
        let name = format!("trie called {}", want.total());
        let r = call(|| (get_trie_stats(&h.trie), format!("{}", get_trie_stats_with_name(&h.trie, name.clone()))));
        let (stats, text) = match r {
            Ok(x) => x,
            Err(Fail::Injected) => return,
            Err(Fail::Panic(m)) => w.fail("statistics panic", format!("the statistics of {} panic: {m}", show(&tree.entries()))),
        };
        w.check("statistics carry the name they were given", text.contains(&name), || format!("the statistics asked for as {name:?} read\n{text}"));
        for (i, (line, n)) in want.lines().into_iter().enumerate() {
            let Some(got) = after(&text, line) else {
                w.check("statistics are complete", mentions(&text, n), || {
                    format!("the statistics of {} nowhere say {n} ({line}):\n{text}", show(&tree.entries()))
                });
                continue;
            };
            w.check("statistics match the nodes", number(got).map_or(true, |g| close(g, n)), || {
                format!("the statistics of {} say \"{line} {got}\" instead of {n}:\n{text}", show(&tree.entries()))
            });
            if i < 5 {
                let share = 100.0 * n / want.total() as f64;
                w.check("shares match the nodes", percent(got).map_or(true, |g| (g - share).abs() < 0.06), || {
                    format!("the statistics of {} say \"{line} {got}\", which is {share}% of {}", show(&tree.entries()), want.total())
                });
            }
        }
        let other = match near_ones(&tree, &tree.entries()).pop() {
            Some(o) if h.canon && !tree.has_hidden() => canonical(&o),
            _ => tree.clone(),
        };
        let so = Stats::of(&other);
        let ot = rebuild::<N>(&other);
        let Ok(text) = call(|| format!("{}", stats.compare(&get_trie_stats(&ot)))) else { return };
        for ((line, a), (_, b)) in want.compared().into_iter().zip(so.compared()) {
            let Some(got) = after(&text, line) else {
                w.check("comparison is complete", mentions(&text, a) && mentions(&text, b), || {
                    format!("comparing the statistics of {} and {} nowhere says {a} / {b} ({line}):\n{text}", show(&tree.entries()), show(&other.entries()))
                });
                continue;
            };
            let Some((x, y)) = got.split_once(" / ") else { continue };
            let ratio = 100.0 * a / b;
            w.check("ratio of both sides", !ratio.is_finite() || percent(got).map_or(true, |g| (g - ratio).abs() < 0.06 + ratio * 1e-4), || {
                format!("comparing the statistics of {} and {} says \"{line} {got}\", which is {ratio}%", show(&tree.entries()), show(&other.entries()))
            });
            let ok = number(x).map_or(true, |g| close(g, a)) && number(y).map_or(true, |g| close(g, b));
            w.check("comparison gives both sides", ok, || {
                format!("comparing the statistics of {} and {} says \"{line} {got}\" instead of {a} / {b}", show(&tree.entries()), show(&other.entries()))
            });
        }
    }

    /// The path reported for a key against the nodes a lookup visits.
    fn path(&self, h: &Handle<N>, k: &Key) {
        let w = self.w;
        let tree = to_ref(&h.trie);
        let bits = crate::forms::mix(7, &k.0, tree.entries().len() as u64);
        let (pieces, kinds, extra) = (bits & 3 != 0, bits & 12 != 0, bits & 16 != 0);
        let text = call(|| {
            let q = DebugQueryParamsBuilder::default();
            let o = match (pieces && kinds && !extra, bits & 32 != 0) {
                // The documented defaults, by either way of asking for them.
                (true, true) => get_path_from_query(&h.trie, pack(&k.0)),
                (true, false) => get_path_from_query(&h.trie, q.build(pack(&k.0))),
                _ => get_path_from_query(&h.trie, q.print_key_pieces(pieces).print_node_type(kinds).print_node_specific_values(extra).build(pack(&k.0))),
            };
            format!("{o}")
        });
        let what = || format!("the path query of {} in {}", nibs(&k.0), show(&tree.entries()));
        let text = match text {
            Ok(t) => t,
            Err(Fail::Injected) => return,
            Err(Fail::Panic(m)) => w.fail("path query panics", format!("{} panics: {m}", what())),
        };
        let (want, found) = lookup_path(&tree, &k.0);
        if want.len() > 1 {
            w.nontrivial.set(true);
        }
        w.note(want.len() as u64);
        let key = k.0.iter().map(|x| format!("{x:x}")).collect::<String>();
        match after(&text, "Queried Key:") {
            Some(got) => w.check("path query names its key", got == format!("0x{key}"), || format!("{} says it is about {got}", what())),
            None => w.check("path query names its key", text.contains(&key), || format!("{} does not name the key:\n{text}", what())),
        }
        if let (Some(got), Some(f)) = (after(&text, "Node found:"), found) {
            w.check("found iff the lookup finds it", got == f.to_string(), || format!("{} says found: {got}", what()));
        }
        let Some((_, path)) = text.split_once("Query path:\n") else { return };
        let got: Vec<&str> = path.lines().filter(|l| *l != "V").collect();
        let ok = got.len() == want.len()
            && got.iter().zip(&want).all(|(l, (n, piece))| {
                let mut ok = kinds == l.starts_with(&format!("{}(", n.kind()));
                if let (true, Some(p)) = (pieces, piece) {
                    let p = p.iter().map(|x| format!("{x:x}")).collect::<String>();
                    ok &= l.contains(&format!("0x{p})")) || l.contains(&format!("0x{p},"));
                }
                if let (false, false, Some(p)) = (pieces, extra, piece) {
                    ok &= p.is_empty() || !l.contains(&format!("0x{}", p.iter().map(|x| format!("{x:x}")).collect::<String>()));
                }
                match &***n {
                    RefNode::Leaf(_, v) if !extra => ok &= pieces || v.len() < 4 || !l.contains(&hex(v)),
                    RefNode::Hash(x) if !extra => ok &= !l.contains(&hex(x)),
                    RefNode::Leaf(_, v) if extra => ok &= l.contains(&format!("Leaf Value: {})", hex(v))),
                    RefNode::Hash(x) if extra => ok &= l.contains(&hex(x)),
                    RefNode::Branch(c, _) if extra => {
                        let m = (0..16).filter(|i| !c[*i].is_empty()).map(|i| 1u16 << i).sum::<u16>();
                        ok &= l.contains(&format!("{m:#018b}")) && l.contains(&format!("Num Children: {})", m.count_ones()));
                    }
                    _ => {}
                }
                ok
            });
        w.check("path is the lookup's path", ok, || {
            let want: Vec<String> = want.iter().map(|(n, p)| format!("{} {}", n.kind(), p.as_ref().map_or("".into(), |p| nibs(p)))).collect();
            format!("{} reports\n{path}\nbut a lookup visits {want:?}", what())
        });
    }

    fn save(&self, s: R, file: u8, fmt: u8, io: &Io, trunc: Option<u32>, flip: Option<(u32, u8)>) {
        let w = self.w;
        let f = self.with(s, |h| {
            let tree = to_ref(&h.trie);
            let fmt = if tree.depth() > 14 { 0 } else { fmt % 3 };
            let mut out = SimWriter::new(io);
            let r = call(|| match fmt {
                0 => bincode::serialize_into(&mut out, &h.trie).map_err(|e| e.to_string()),
                1 => serde_json::to_writer(&mut out, &h.trie).map_err(|e| e.to_string()),
                _ => ciborium::into_writer(&h.trie, &mut out).map_err(|e| e.to_string()),
            });
            self.unchanged(h, "after saving");
            let failed = out.failed;
            let mut bytes = out.out;
            w.note_bytes(&bytes.len().to_le_bytes());
            if w.on("C09") {
                match &r {
                    Err(Fail::Injected) => {}
                    Err(Fail::Panic(m)) => w.fail("saving panics", format!("saving {} panics: {m}", show(&h.entries))),
                    Ok(x) => w.check("write errors are reported, others not invented", x.is_err() == failed, || {
                        format!("saving {} returned {x:?}; the stream {}", show(&h.entries), if failed { "failed" } else { "worked" })
                    }),
                }
            }
            let mut complete = matches!(r, Ok(Ok(())));
            let mut altered = false;
            if let Some(t) = trunc {
                if complete && !bytes.is_empty() {
                    // The crash loses a tail of at least one byte.
                    let keep = t as usize % bytes.len();
                    bytes.truncate(keep);
                    complete = false;
                    faults::count(fired::TRUNC);
                }
            }
            if let Some((p, m)) = flip {
                if complete && !bytes.is_empty() {
                    let l = bytes.len();
                    bytes[p as usize % l] ^= m;
                    altered = true;
                    faults::count(fired::FLIP);
                }
            }
            File { bytes, fmt, tree, complete, altered }
        });
        if let Some(f) = f {
            w.files.borrow_mut()[file as usize % FILES] = Some(Rc::new(f));
        }
    }

    fn load(&self, file: u8, d: u8, io: &Io) {
        let w = self.w;
        let Some(f) = w.files.borrow()[file as usize % FILES].clone() else { return };
        let mut rd = SimReader::new(io, &f.bytes);
        let limit = f.bytes.len() as u64 + 64;
        let r = call(|| decode::<N, _>(f.fmt, limit, &mut rd));
        let read_failed = rd.failed;
        w.note(matches!(r, Ok(Ok(_))) as u64);
        if w.on("C09") {
            w.nontrivial.set(true);
            let what = || show(&f.tree.entries());
            let r = match &r {
                Err(Fail::Injected) => return,
                Err(Fail::Panic(m)) => w.fail("loading panics", format!("loading a file of {} panics: {m}", what())),
                Ok(r) => r,
            };
            if read_failed {
                w.check("read errors are reported", r.is_err(), || {
                    format!("loading {} succeeded although the stream failed", what())
                });
            } else if !f.complete {
                w.check("an incomplete file is not a trie", r.is_err(), || {
                    format!("{} bytes of an incomplete file of {} load as {}", f.bytes.len(), what(), show(&to_ref(r.as_ref().unwrap()).entries()))
                });
            } else if !f.altered {
                match r {
                    Err(e) => w.fail("a complete file loads", format!("loading a complete file of {} fails: {e}", what())),
                    Ok(t) => {
                        w.check("a file restores its trie", same(t, &f.tree), || {
                            format!("a file of {} loads as {}", what(), show(&to_ref(t).entries()))
                        });
                        let orig = rebuild::<N>(&f.tree);
                        w.check("restored trie equals the original", matches!(alone(|| *t == orig), Ok(true)), || {
                            format!("the restored trie of {} is not equal to the original", what())
                        });
                    }
                }
            }
            if let Ok(t) = r {
                // Whatever was loaded reports its own hash.
                if all_well_formed(t, 0) {
                    let tree = to_ref(t);
                    let got = call(|| t.hash().0);
                    let want = fresh_hash::<N>(&tree);
                    if let (Ok(got), Some(want)) = (got, want) {
                        w.check("restored hash is that of the restored content", got == want, || {
                            format!(
                                "a {} file of {} loads as {} whose hash() is {}; the same nodes built anew hash to {}",
                                if f.altered { "damaged" } else { "complete" },
                                what(),
                                show(&tree.entries()),
                                hex(&got),
                                hex(&want)
                            )
                        });
                        w.check("restored hash is that of the restored content", got == tree.root() || tree.root() != want, || {
                            "unreachable".into()
                        });
                    }
                }
            }
        }
        if let Ok(Ok(t)) = r {
            if f.altered && !all_well_formed(&t, 0) {
                return;
            }
            let mut h = Handle::of(t, w, w.new_lineage());
            if f.altered && !h.canon {
                return;
            }
            h.hashed.set(true);
            if w.on("C09") {
                h.twin = Some(rebuild(&h.tree));
            }
            self.structure_c04(&h, "after a restore");
            self.put(d, h);
        }
    }

    // ---- end of run -------------------------------------------------------------------------

    fn audit(&self, h: &Handle<N>) {
        let w = self.w;
        self.unchanged(h, "at the end");
        match &*w.prop {
            "C01" => {
                self.observe_hash(h, "at the end");
                if h.entries.len() <= 40 {
                    self.audit_nodes(&h.trie, &mut vec![]);
                }
            }
            "C02" | "C11" | "C08" | "C10" => {
                self.observe_hash(h, "at the end");
                if w.on("C02") {
                    let same_as_copy = alone(|| h.trie == rebuild::<N>(&h.tree));
                    w.check("handle equals its snapshot", same_as_copy != Ok(false), || {
                        format!("at the end: a trie is not equal to a copy of {}", show(&h.entries))
                    });
                }
                if w.on("C08") && h.twin.is_some() {
                    for k in Self::probe_keys(&h.entries, &[]) {
                        self.lookup(h, &k, None, "at the end");
                    }
                }
            }
            "C03" => {
                for k in Self::probe_keys(&h.entries, &[]) {
                    self.lookup(h, &k, None, "at the end");
                }
            }
            "C04" => {
                self.observe_hash(h, "at the end");
                if h.canon && !h.tree.has_hidden() && h.entries.len() <= 40 {
                    // Another history that reaches the same content.
                    let again = alone(|| {
                        let mut t = N::default();
                        for (k, v) in h.entries.iter().rev() {
                            t.insert(pack(k), raw_val(v));
                        }
                        (t == h.trie, t.hash().0)
                    });
                    if let Ok((eq, hash)) = again {
                        let mine = call(|| h.trie.hash().0);
                        w.check("equal content, equal tries", eq && matches!(mine, Ok(m) if m == hash), || {
                            format!("a trie of {} differs from one built anew with the same content", show(&h.entries))
                        });
                    }
                }
            }
            "C09" => {
                if h.twin.is_some() {
                    self.observe_hash(h, "at the end");
                    for k in Self::probe_keys(&h.entries, &[]) {
                        self.lookup(h, &k, None, "at the end");
                    }
                }
            }
            "C12" => self.iterate(h, 0, &[]),
            _ => {}
        }
    }

    /// hash() of every sub-trie.
    fn audit_nodes(&self, t: &N, at: &mut Vec<u8>) {
        let w = self.w;
        let tree = to_ref(t);
        if let Ok(got) = call(|| t.hash().0) {
            let want = tree.root();
            w.check("hash of every sub-trie matches its nodes", got == want, || {
                format!("at the end: the sub-trie at {} ({}) has hash() {} instead of {}", nibs(at), show(&tree.entries()), hex(&got), hex(&want))
            });
        }
        match &**t {
            Node::Branch { children, .. } => {
                for (i, c) in children.iter().enumerate() {
                    if !matches!(&***c as &Node<N>, Node::Empty) {
                        at.push(i as u8);
                        self.audit_nodes(c, at);
                        at.pop();
                    }
                }
            }
            Node::Extension { child, .. } => self.audit_nodes(child, at),
            _ => {}
        }
    }

    fn final_audit(&self) {
        let w = self.w;
        let r = catch_unwind(AssertUnwindSafe(|| {
            for h in w.left.take() {
                self.audit(&h);
            }
            for h in w.frozen.take() {
                self.audit(&h);
            }
            for h in w.mail.take() {
                self.audit(&h);
            }
            for g in w.guarded.take() {
                let h = g.read();
                self.audit(&h);
            }
        }));
        if let Err(p) = r {
            if !p.is::<Stop>() {
                resume_unwind(p);
            }
        }
    }
}

pub fn decode<N: SimTrie, Rd: std::io::Read>(fmt: u8, limit: u64, rd: &mut Rd) -> Result<N, String> {
    use bincode::Options;
    match fmt {
        0 => bincode::options()
            .with_fixint_encoding()
            .with_limit(limit)
            .deserialize_from(rd)
            .map_err(|e| e.to_string()),
        1 => serde_json::from_reader(rd).map_err(|e| e.to_string()),
        _ => ciborium::from_reader(rd).map_err(|e| e.to_string()),
    }
}

/// Mutable access to the node `steps` steps down the path, as a user would get it.
fn descend<'a, N: SimTrie>(mut t: &'a mut N, path: &[u8], steps: usize) -> &'a mut N {
    let mut used = 0;
    for _ in 0..steps {
        t = match &mut **t {
            Node::Branch { children, .. } => {
                used += 1;
                &mut **Arc::make_mut(&mut children[path[used - 1] as usize])
            }
            Node::Extension { nibbles, child } => {
                used += nibbles.count;
                &mut **Arc::make_mut(child)
            }
            _ => unreachable!(),
        };
    }
    t
}

/// Everything known about one finished run.
pub struct RunResult {
    pub viol: Option<Viol>,
    pub fp: u64,
    pub trace: u64,
    pub steps: u64,
    pub switches: u64,
    pub virtual_us: u64,
    pub blocked: u64,
    pub tasks: usize,
    pub nontrivial: bool,
    pub choices: Vec<(u64, usize)>,
    pub counters: Counters,
    pub poisoned: bool,
    pub outcome: Outcome,
    pub error: Option<String>,
}

pub const STEP_LIMIT: u64 = 10_000_000;

pub fn run_plan(p: &Plan) -> RunResult {
    if p.pipe.is_some() {
        return if p.caching {
            crate::pipeline::run::<HashedPartialTrie>(p)
        } else {
            crate::pipeline::run::<StandardTrie>(p)
        };
    }
    if p.caching {
        run_typed::<HashedPartialTrie>(p)
    } else {
        run_typed::<StandardTrie>(p)
    }
}

fn run_typed<N: SimTrie>(p: &Plan) -> RunResult {
    faults::begin_run(p.log_format, p.forms, p.prop == "C15");
    let w = World::<N>::new(&p.prop);
    let mut res = RunResult {
        viol: None,
        fp: 0,
        trace: 0,
        steps: 0,
        switches: 0,
        virtual_us: 0,
        blocked: 0,
        tasks: p.tasks.len(),
        nontrivial: false,
        choices: vec![],
        counters: Counters::default(),
        poisoned: false,
        outcome: Outcome::Done,
        error: None,
    };
    for phase in 0..3 {
        let wr = &w;
        let tasks: Vec<Box<dyn FnOnce() + '_>> = match phase {
            0 => vec![Box::new(move || Task::new(wr).program(&p.setup))],
            1 => p
                .tasks
                .iter()
                .map(|ops| Box::new(move || Task::new(wr).program(ops)) as Box<dyn FnOnce() + '_>)
                .collect(),
            _ => vec![Box::new(move || Task::new(wr).final_audit())],
        };
        if tasks.is_empty() {
            continue;
        }
        let sched = if phase == 1 { p.sched.get() } else { simrt::Sched::Explicit(vec![]) };
        let rep = simrt::run(tasks, sched, p.sched_seed, STEP_LIMIT);
        res.steps += rep.steps;
        res.switches += rep.switches;
        res.virtual_us += rep.virtual_us;
        res.blocked += rep.kinds[Kind::Blocked as usize];
        res.trace = mix(res.trace ^ rep.trace_hash);
        if phase == 1 {
            res.choices = rep.choices.clone();
        }
        res.poisoned |= rep.poisoned;
        if let Some((t, m)) = rep.escaped.first() {
            res.error = Some(format!("task {t} of phase {phase}: {m}"));
        }
        if rep.outcome != Outcome::Done && !w.stopped() {
            let faulted = w.faulted.get();
            if p.prop == "C10" || (p.prop == "C08" && faulted) {
                let (oracle, msg) = match &rep.outcome {
                    Outcome::Deadlock(who) => (
                        "no deadlock",
                        format!("no task can continue: {who}{}", if faulted { " (after an operation had failed)" } else { "" }),
                    ),
                    _ => ("bounded progress", format!("not finished after {STEP_LIMIT} steps")),
                };
                *w.viol.borrow_mut() = Some(Viol { oracle: oracle.into(), msg });
            }
        } else if p.prop == "C10" {
            w.counters.borrow_mut().oracles.entry("no deadlock").and_modify(|x| *x += 1).or_insert(1);
        }
        res.outcome = rep.outcome;
        if w.stopped() || res.outcome != Outcome::Done || res.error.is_some() {
            break;
        }
    }
    if p.prop == "C19" && !res.poisoned && !w.stopped() && res.outcome == Outcome::Done && res.error.is_none() {
        w.frozen.borrow_mut().clear();
        w.guarded.borrow_mut().clear();
        w.mail.borrow_mut().clear();
        w.left.borrow_mut().clear();
        w.known.borrow_mut().clear();
        let seen = w.seen.take();
        let alive = seen.iter().filter(|x| x.strong_count() > 0).count();
        *w.counters.borrow_mut().oracles.entry("nodes die with the last trie").or_insert(0) += 1;
        if alive > 0 {
            *w.viol.borrow_mut() = Some(Viol {
                oracle: "nodes die with the last trie".into(),
                msg: format!("{alive} of {} nodes are still alive although no trie is left", seen.len()),
            });
        }
    }
    if p.prop == "C14" || p.prop == "C15" {
        let (oracle, least) = if p.prop == "C14" { ("the same in every form", 6) } else { ("damaged keys", 3) };
        let (used, n) = faults::forms_used();
        *w.counters.borrow_mut().oracles.entry(oracle).or_insert(0) += n;
        w.nontrivial.set(used.count_ones() >= least);
        w.note(used);
        if let (Some(e), None) = (faults::take_form_error(), &*w.viol.borrow()) {
            res.viol = Some(Viol { oracle: oracle.into(), msg: e });
        }
    }
    if res.viol.is_none() {
        res.viol = w.viol.borrow_mut().take();
    }
    res.fp = mix(w.fp.get() ^ res.trace);
    res.nontrivial = w.nontrivial.get() || (p.prop == "C10" && res.blocked > 0)
        || (p.prop == "C11" && p.tasks.len() > 1 && w.counters.borrow().oracles.keys().any(|k| k.contains("alone") || k.contains("copy")));
    res.counters = w.counters.borrow().clone();
    if res.poisoned {
        // Tasks were given up with live references into the world.
        std::mem::forget(w);
    }
    res
}

struct Stats {
    counts: [u64; 5],
    lowest: u64,
    leaf_sum: u64,
    hash_sum: u64,
}

impl Stats {
    fn of(t: &RefNode) -> Stats {
        let mut s = Stats { counts: [0; 5], lowest: 0, leaf_sum: 0, hash_sum: 0 };
        s.add(t, 0);
        s
    }
    fn add(&mut self, t: &RefNode, depth: u64) {
        let i = match t {
            RefNode::Empty => 0,
            RefNode::Hash(_) => {
                self.hash_sum += depth;
                self.lowest = self.lowest.max(depth);
                1
            }
            RefNode::Branch(c, _) => {
                c.iter().for_each(|c| self.add(c, depth + 1));
                2
            }
            RefNode::Ext(_, c) => {
                self.add(c, depth + 1);
                3
            }
            RefNode::Leaf(..) => {
                self.leaf_sum += depth;
                self.lowest = self.lowest.max(depth);
                4
            }
        };
        self.counts[i] += 1;
    }
    fn total(&self) -> u64 {
        self.counts.iter().sum()
    }
    fn avg(&self) -> (f64, f64) {
        (self.leaf_sum as f64 / self.counts[4] as f64, self.hash_sum as f64 / self.counts[1] as f64)
    }
    fn lines(&self) -> [(&'static str, f64); 8] {
        let c = self.counts.map(|x| x as f64);
        let (l, h) = self.avg();
        [("Empty:", c[0]), ("Hash:", c[1]), ("Branch:", c[2]), ("Extension:", c[3]), ("Leaf:", c[4]),
            ("Lowest depth:", self.lowest as f64), ("Average leaf depth:", l), ("Average hash depth:", h)]
    }
    fn compared(&self) -> [(&'static str, f64); 10] {
        let c = self.counts.map(|x| x as f64);
        let (l, h) = self.avg();
        [("Total nodes:", self.total() as f64), ("Non-empty:", self.total() as f64 - c[0]), ("Total empty:", c[0]), ("Total hash:", c[1]),
            ("Total branch:", c[2]), ("Total extension:", c[3]), ("Total leaf:", c[4]), ("Lowest depth:", self.lowest as f64),
            ("Avg leaf depth:", l), ("Avg hash depth:", h)]
    }
}

/// The rest of the first line that has `name` at its start or after a space.
fn after<'t>(text: &'t str, name: &str) -> Option<&'t str> {
    text.lines().find_map(|l| match l.find(name) {
        Some(0) => Some(l[name.len()..].trim()),
        Some(i) if l.as_bytes()[i - 1] == b' ' => Some(l[i + name.len()..].trim()),
        _ => None,
    })
}

fn number(s: &str) -> Option<f64> {
    s.split_whitespace().next()?.parse().ok()
}

/// The percentage in brackets after a number, if one is given.
fn percent(s: &str) -> Option<f64> {
    let (p, _) = s.split_once("%)")?;
    p[p.rfind('(')? + 1..].parse().ok()
}

/// Whether the text has the number somewhere (averages may be left out or written otherwise).
fn mentions(text: &str, n: f64) -> bool {
    n.fract() != 0.0 || n.is_nan() || text.split(|c: char| !c.is_ascii_digit()).any(|x| x.parse() == Ok(n))
}

/// Equal as far as three decimals and 32-bit floats show.
fn close(a: f64, b: f64) -> bool {
    (a.is_nan() && b.is_nan()) || (a - b).abs() <= 0.002 + b.abs() * 1e-5
}

type Step<'t> = (&'t Rc<RefNode>, Option<Vec<u8>>);

/// The nodes a lookup of `k` visits with the piece of the key each stands for, and whether
/// it finds a value (None: hidden).
fn lookup_path<'t>(t: &'t Rc<RefNode>, k: &[u8]) -> (Vec<Step<'t>>, Option<bool>) {
    let mut v = vec![];
    let (mut t, mut k) = (t, k);
    loop {
        match &**t {
            RefNode::Empty => {
                v.push((t, None));
                return (v, Some(false));
            }
            RefNode::Hash(_) => {
                v.push((t, None));
                return (v, None);
            }
            RefNode::Leaf(n, _) => {
                v.push((t, Some(n.clone())));
                return (v, Some(n == k));
            }
            RefNode::Ext(n, c) => {
                v.push((t, Some(n.clone())));
                let Some(rest) = k.strip_prefix(&n[..]) else { return (v, Some(false)) };
                (t, k) = (c, rest);
            }
            RefNode::Branch(c, val) => match k.split_first() {
                None => {
                    v.push((t, None));
                    return (v, Some(!val.is_empty()));
                }
                Some((x, rest)) => {
                    v.push((t, Some(vec![*x])));
                    (t, k) = (&c[*x as usize], rest);
                }
            },
        }
    }
}

/// The nodes above position `k`.
fn way_to(t: &RefNode, k: &[u8]) -> Vec<String> {
    let mut v = vec![];
    let (mut t, mut k) = (t, k);
    while !k.is_empty() {
        match t {
            RefNode::Branch(c, _) => {
                v.push(format!("Branch({})", k[0]));
                (t, k) = (&c[k[0] as usize], &k[1..]);
            }
            RefNode::Ext(n, c) if k.starts_with(n) => {
                v.push(format!("Extension({:x})", pack(n)));
                (t, k) = (c, &k[n.len()..]);
            }
            _ => break,
        }
    }
    v
}

/// A few sets that differ from the content of `t` in one detail.
/// The same trie with one byte of one hidden part's hash changed.
fn other_hidden(t: &Rc<RefNode>) -> Option<Rc<RefNode>> {
    fn count(t: &RefNode) -> u64 {
        match t {
            RefNode::Hash(_) => 1,
            RefNode::Ext(_, c) => count(c),
            RefNode::Branch(c, _) => c.iter().map(|c| count(c)).sum(),
            _ => 0,
        }
    }
    fn change(t: &Rc<RefNode>, n: &mut u64, at: usize) -> Rc<RefNode> {
        match &**t {
            RefNode::Hash(h) => {
                let mut h = *h;
                if *n == 0 {
                    h[at] ^= 1 << (at % 8);
                }
                *n = n.wrapping_sub(1);
                Rc::new(RefNode::Hash(h))
            }
            RefNode::Ext(k, c) => Rc::new(RefNode::Ext(k.clone(), change(c, n, at))),
            RefNode::Branch(c, v) => Rc::new(RefNode::Branch(c.iter().map(|c| change(c, n, at)).collect(), v.clone())),
            _ => t.clone(),
        }
    }
    let (n, r) = (count(t), t.root());
    (n > 0).then(|| change(t, &mut (u16::from_le_bytes([r[0], r[1]]) as u64 % n), r[2] as usize % 32))
}

fn near_ones(t: &RefNode, e: &Entries) -> Vec<Entries> {
    let seed = u64::from_le_bytes(t.root()[..8].try_into().unwrap());
    let small = e.len() <= 64;
    (0..if small { 3 } else { 1 }).filter_map(|i| near(e, (seed >> 8).wrapping_add(i))).collect()
}
