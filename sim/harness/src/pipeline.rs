//! Producer and workers: partial tries shipped over a faulty network (property C06).
//!
//! The producer and the workers run the real library (subsets, serialization, lookups,
//! inserts, deletes, hashing). The network between them is simulated.

use crate::exec::{alone, call, decode, show, Counters, Fail, RunResult, SimTrie, Stop, Viol, World, STEP_LIMIT};
use crate::faults::{self, fired, raw_val, SimKey, SimVal};
use crate::model::*;
use crate::plan::{Key, KeyGen, Plan, Val};
use eth_trie_utils::trie_subsets::{create_trie_subset, create_trie_subsets};
use serde::{Deserialize, Serialize};
use simrt::{mix, now, point, sleep, Kind, Outcome, Rng};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum JOp {
    Ins(Key, Val),
    Del(Key),
    Get(Key),
    Hash,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Job {
    pub ops: Vec<JOp>,
    /// Keys in the subset that the updates do not need.
    pub extra: Vec<Key>,
    /// The worker narrows the trie further and ships it to itself before working.
    pub relay: bool,
    /// Keys that may be hidden; tried on a clone.
    pub probes: Vec<Key>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum NetFault {
    Lose,
    Dup(u32),
    Delay(u32),
    Alter(u32, u8),
    Cut(u32),
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Pipe {
    pub caching: bool,
    pub kv: Vec<(Key, Val)>,
    pub rounds: Vec<Vec<Job>>,
    pub workers: u8,
    pub fmt: u8,
    pub batch: bool,
    pub hash_before_ship: bool,
    /// Faults by number of the message sent.
    pub net: Vec<(u16, NetFault)>,
    /// (worker, from, length) in microseconds.
    pub parts: Vec<(u8, u32, u32)>,
    /// (worker, after this many operations, downtime).
    pub crashes: Vec<(u8, u16, u32)>,
    /// What another thread of the producer does with clones of the base.
    pub noise: Vec<JOp>,
}

impl Pipe {
    pub fn size(&self) -> usize {
        self.kv.len()
            + self.rounds.iter().flatten().map(|j| 1 + j.ops.len() + j.extra.len() + j.probes.len()).sum::<usize>()
            + self.net.len()
            + self.parts.len()
            + self.crashes.len()
            + self.noise.len()
    }
}

pub fn generate(r: &mut Rng) -> Pipe {
    let variable = r.chance(1, 2);
    let kg = KeyGen::new(r, variable, false);
    let kv_n = r.range(1, kg.pool.len() * 2 + 2);
    let kv = (0..kv_n).map(|_| (kg.key(r), kg.val(r))).collect();
    let del = r.range(1, 6) as u32;
    let jop = |r: &mut Rng| match r.weighted(&[4, del, 2, 2]) {
        0 => JOp::Ins(kg.key(r), kg.val(r)),
        1 => JOp::Del(kg.key(r)),
        2 => JOp::Get(kg.any_key(r)),
        _ => JOp::Hash,
    };
    let mut rounds = vec![];
    for _ in 0..r.range(1, 3) {
        let mut jobs = vec![];
        for _ in 0..r.range(1, 4) {
            jobs.push(Job {
                ops: (0..r.range(1, 8)).map(|_| jop(r)).collect(),
                extra: (0..r.range(0, 2)).map(|_| kg.any_key(r)).collect(),
                relay: r.chance(1, 4),
                probes: (0..r.range(0, 3)).map(|_| kg.any_key(r)).collect(),
            });
        }
        rounds.push(jobs);
    }
    let workers = r.range(1, 3) as u8;
    let rate = *r.pick(&[0u64, 10, 30, 60]);
    let mut net = vec![];
    for i in 0..40u16 {
        if r.chance(rate, 100) {
            let f = match r.below(10) {
                0..=2 => NetFault::Lose,
                3 | 4 => NetFault::Dup(r.below(9000) as u32),
                5 | 6 => NetFault::Delay(r.below(30000) as u32),
                7 | 8 => NetFault::Alter(r.below(1 << 16) as u32, 1 << r.below(8)),
                _ => NetFault::Cut(r.below(1 << 16) as u32),
            };
            net.push((i, f));
        }
    }
    let parts = (0..*r.pick(&[0usize, 0, 1, 2]))
        .map(|_| (r.below(workers as u64) as u8, r.below(20000) as u32, r.below(60000) as u32))
        .collect();
    let crashes = (0..*r.pick(&[0usize, 0, 1, 3]))
        .map(|_| (r.below(workers as u64) as u8, r.below(12) as u16, r.below(20000) as u32))
        .collect();
    let noise = (0..*r.pick(&[0usize, 4, 12])).map(|_| jop(r)).collect();
    Pipe {
        caching: !r.chance(1, 5),
        kv,
        rounds,
        workers,
        fmt: *r.pick(&[0u8, 0, 1, 2]),
        batch: r.chance(2, 3),
        hash_before_ship: r.chance(1, 2),
        net,
        parts,
        crashes,
        noise,
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Res {
    Done,
    Got(Option<Vec<u8>>),
    Deleted(Option<Vec<u8>>),
    Root(H),
    Panic,
}

#[derive(Clone)]
enum Msg {
    Work { round: usize, job: usize, body: Rc<Vec<u8>>, altered: bool },
    Ack { round: usize, job: usize, results: Rc<Vec<Res>> },
}

struct Net<'p> {
    p: &'p Pipe,
    sent: Cell<u16>,
    seq: Cell<u64>,
    /// Endpoint 0 is the producer.
    queues: RefCell<Vec<BTreeMap<(u64, u64), Msg>>>,
}

impl Net<'_> {
    fn partitioned(&self, worker: usize) -> bool {
        let t = now();
        self.p.parts.iter().any(|(w, from, len)| *w as usize == worker && t >= *from as u64 && t < (*from + *len) as u64)
    }

    fn put(&self, to: usize, at: u64, m: Msg) {
        self.seq.set(self.seq.get() + 1);
        self.queues.borrow_mut()[to].insert((at, self.seq.get()), m);
    }

    /// `worker` is the non-producer end of the link.
    fn send(&self, to: usize, worker: usize, mut m: Msg) {
        point(Kind::Io);
        let n = self.sent.get();
        self.sent.set(n.saturating_add(1));
        if self.partitioned(worker) {
            faults::count(fired::PARTITION);
            return;
        }
        let mut at = now() + 200;
        for (i, f) in &self.p.net {
            if *i != n {
                continue;
            }
            match f {
                NetFault::Lose => {
                    faults::count(fired::LOST);
                    return;
                }
                NetFault::Dup(d) => {
                    faults::count(fired::DUP);
                    self.put(to, at + *d as u64, m.clone());
                }
                NetFault::Delay(d) => {
                    faults::count(fired::DELAY);
                    at += *d as u64;
                }
                NetFault::Alter(pos, mask) => {
                    if let Msg::Work { body, altered, .. } = &mut m {
                        let mut b = (**body).clone();
                        let l = b.len();
                        b[*pos as usize % l] ^= mask;
                        *body = Rc::new(b);
                        *altered = true;
                        faults::count(fired::ALTER);
                    }
                }
                NetFault::Cut(keep) => {
                    if let Msg::Work { body, altered, .. } = &mut m {
                        let k = *keep as usize % body.len();
                        *body = Rc::new(body[..k].to_vec());
                        *altered = true;
                        faults::count(fired::TRUNC);
                    }
                }
            }
        }
        self.put(to, at, m);
    }

    fn recv(&self, me: usize, until: u64) -> Option<Msg> {
        loop {
            point(Kind::Io);
            let next = {
                let mut q = self.queues.borrow_mut();
                match q[me].keys().next().copied() {
                    Some(k) if k.0 <= now() => return q[me].remove(&k),
                    Some(k) => k.0,
                    None => u64::MAX,
                }
            };
            let t = now();
            if t >= until {
                return None;
            }
            sleep(next.min(until).min(t + 1000).saturating_sub(t).max(1));
        }
    }
}

/// Keys a subset has to carry so that the updates can be applied to it.
fn needed(base: &Entries, ops: &[JOp]) -> Vec<Vec<u8>> {
    let mut e = base.clone();
    let mut out = vec![];
    for o in ops {
        match o {
            JOp::Ins(k, v) => {
                out.push(k.0.clone());
                e.insert(k.0.clone(), v.0.clone());
            }
            JOp::Get(k) => out.push(k.0.clone()),
            JOp::Hash => {}
            JOp::Del(k) => {
                out.push(k.0.clone());
                if e.remove(&k.0).is_some() {
                    out.extend(merged(&e, &k.0));
                }
            }
        }
    }
    out
}

/// An entry of the subtree that the removal of `k` merges upwards, if there is one.
fn merged(rest: &Entries, k: &[u8]) -> Option<Vec<u8>> {
    let p = rest.keys().map(|x| x.iter().zip(k).take_while(|(a, b)| a == b).count()).max()?;
    let under: Vec<&Vec<u8>> = rest.keys().filter(|x| x.starts_with(&k[..p])).collect();
    if under.iter().any(|x| x.len() == p) || under.iter().any(|x| x[p] != under[0][p]) {
        return None;
    }
    under.first().map(|x| (*x).clone())
}

fn apply<N: SimTrie>(t: &mut N, o: &JOp) -> Res {
    let r = match o {
        JOp::Ins(k, v) => call(|| {
            t.insert(SimKey(&k.0), SimVal(&v.0));
            Res::Done
        }),
        JOp::Del(k) => call(|| Res::Deleted(t.delete(SimKey(&k.0)))),
        JOp::Get(k) => call(|| Res::Got(t.get(SimKey(&k.0)).map(|v| v.to_vec()))),
        JOp::Hash => call(|| Res::Root(t.hash().0)),
    };
    match r {
        Ok(r) => r,
        Err(Fail::Injected) | Err(Fail::Panic(_)) => Res::Panic,
    }
}

fn work<N: SimTrie>(t: &mut N, ops: &[JOp], mut each: impl FnMut(&N)) -> Vec<Res> {
    let mut out = vec![];
    for o in ops {
        out.push(apply(t, o));
        each(t);
    }
    out.push(apply(t, &JOp::Hash));
    out
}

fn encode<N: SimTrie>(fmt: u8, t: &N) -> Option<Vec<u8>> {
    let mut b = vec![];
    call(|| match fmt {
        0 => bincode::serialize_into(&mut b, t).is_ok(),
        1 => serde_json::to_writer(&mut b, t).is_ok(),
        _ => ciborium::into_writer(t, &mut b).is_ok(),
    })
    .ok()?
    .then_some(b)
}

struct Shared<'p, N> {
    w: World<N>,
    net: Net<'p>,
    /// Root every worker knows for the round from elsewhere.
    roots: RefCell<Vec<H>>,
    /// What was really sent, for the oracle.
    shipped: RefCell<BTreeMap<(usize, usize), Rc<RefNode>>>,
    /// Keys the updates of a job need.
    needed: RefCell<BTreeMap<(usize, usize), Vec<Vec<u8>>>>,
    base: RefCell<Option<N>>,
    done: Cell<bool>,
}

pub fn run<N: SimTrie>(plan: &Plan) -> RunResult {
    let p = plan.pipe.as_ref().unwrap();
    faults::begin_run(plan.log_format, 0, false);
    let sh = Shared::<N> {
        w: World::new(&plan.prop),
        net: Net {
            p,
            sent: Cell::new(0),
            seq: Cell::new(0),
            queues: RefCell::new(vec![BTreeMap::new(); p.workers as usize + 1]),
        },
        roots: RefCell::default(),
        shipped: RefCell::default(),
        needed: RefCell::default(),
        base: RefCell::new(None),
        done: Cell::new(false),
    };
    let s = &sh;
    fn body(f: impl FnOnce()) {
        if let Err(e) = catch_unwind(AssertUnwindSafe(f)) {
            if !e.is::<Stop>() {
                resume_unwind(e);
            }
        }
    }
    let mut tasks: Vec<Box<dyn FnOnce() + '_>> = vec![Box::new(move || {
        body(|| producer(s, p));
        s.done.set(true);
    })];
    for i in 1..=p.workers as usize {
        tasks.push(Box::new(move || body(|| worker(s, p, i))));
    }
    if !p.noise.is_empty() {
        tasks.push(Box::new(move || body(|| noise(s, p))));
    }
    let n = tasks.len();
    let rep = simrt::run(tasks, plan.sched.get(), plan.sched_seed, STEP_LIMIT);
    if rep.outcome != Outcome::Done && !sh.w.stopped() {
        let msg = match &rep.outcome {
            Outcome::Deadlock(who) => format!("the exchange is stuck: {who}"),
            _ => format!("the exchange is not finished after {STEP_LIMIT} steps although faults have stopped"),
        };
        *sh.w.viol.borrow_mut() = Some(Viol { oracle: "every job completes once faults stop".into(), msg });
    }
    let res = RunResult {
        viol: sh.w.viol.borrow_mut().take(),
        fp: mix(sh.w.fp.get() ^ rep.trace_hash),
        trace: rep.trace_hash,
        steps: rep.steps,
        switches: rep.switches,
        virtual_us: rep.virtual_us,
        blocked: rep.kinds[Kind::Blocked as usize],
        tasks: n,
        nontrivial: sh.w.nontrivial.get(),
        choices: rep.choices.clone(),
        counters: std::mem::take::<Counters>(&mut *sh.w.counters.borrow_mut()),
        poisoned: rep.poisoned,
        error: rep.escaped.first().map(|(t, m)| format!("task {t}: {m}")),
        outcome: rep.outcome,
    };
    if res.poisoned {
        std::mem::forget(sh);
    }
    res
}

fn producer<N: SimTrie>(s: &Shared<N>, p: &Pipe) {
    let w = &s.w;
    let mut full = N::default();
    for (k, v) in &p.kv {
        if alone(|| full.insert(pack(&k.0), raw_val(&v.0))).is_err() {
            return;
        }
    }
    for (round, jobs) in p.rounds.iter().enumerate() {
        let tree = to_ref(&full);
        let entries = tree.entries();
        if *canonical(&entries) != *tree {
            // Not the trie of any content: other properties' business.
            return;
        }
        if p.hash_before_ship {
            let _ = call(|| full.hash());
        }
        s.roots.borrow_mut().push(tree.root());
        *s.base.borrow_mut() = Some(full.clone());
        let groups: Vec<Vec<Vec<u8>>> = jobs
            .iter()
            .enumerate()
            .map(|(i, j)| {
                let mut g = needed(&entries, &j.ops);
                s.needed.borrow_mut().insert((round, i), g.clone());
                g.extend(j.extra.iter().map(|k| k.0.clone()));
                g
            })
            .collect();
        w.op("subset for shipping");
        let subs: Result<Option<Vec<N>>, Fail> = if p.batch {
            call(|| create_trie_subsets(&full, groups.iter().map(|g| g.iter().map(|k| SimKey(k)))).ok())
        } else {
            call(|| groups.iter().map(|g| create_trie_subset(&full, g.iter().map(|k| SimKey(k))).ok()).collect())
        };
        let subs = match subs {
            Ok(Some(v)) if v.len() == jobs.len() => v,
            other => w.fail(
                "a subset for the updates can be made",
                format!(
                    "subsets of {} for the updates cannot be made: {}",
                    show(&entries),
                    match other {
                        Err(Fail::Panic(m)) => m,
                        _ => "refused".into(),
                    }
                ),
            ),
        };
        // What the full trie answers.
        let mut expected = vec![];
        let mut after = None;
        for j in jobs {
            let mut t = full.clone();
            let r = work(&mut t, &j.ops, |_| ());
            if after.is_none() {
                after = Some(t);
            }
            expected.push(r);
        }
        let fmt = if tree.depth() > 14 { 0 } else { p.fmt % 3 };
        let mut bodies = vec![];
        for (j, t) in subs.iter().enumerate() {
            s.shipped.borrow_mut().insert((round, j), to_ref(t));
            match encode(fmt, t) {
                Some(b) => bodies.push(Rc::new(b)),
                None => w.fail("a subset can be serialized", format!("a subset of {} cannot be serialized", show(&entries))),
            }
        }
        drop(subs);
        let mut open: Vec<usize> = (0..jobs.len()).collect();
        let mut attempt = 0;
        while !open.is_empty() && !w.stopped() {
            for &j in &open {
                let to = 1 + (j + attempt) % p.workers as usize;
                s.net.send(to, to - 1, Msg::Work { round, job: j, body: bodies[j].clone(), altered: false });
            }
            attempt += 1;
            let until = now() + 5000;
            while !open.is_empty() {
                let Some(m) = s.net.recv(0, until) else { break };
                let Msg::Ack { round: r, job, results } = m else { continue };
                if r != round {
                    continue;
                }
                let mut a = results.to_vec();
                let mut b = expected[job].clone();
                // After an operation the full trie itself cannot do, nothing is comparable.
                if let Some(i) = b.iter().position(|x| *x == Res::Panic) {
                    a.truncate(i);
                    b.truncate(i);
                }
                if b.len() > 2 && entries.len() > 1 {
                    w.nontrivial.set(true);
                }
                for x in &a {
                    w.note(match x {
                        Res::Done => 1,
                        Res::Got(v) | Res::Deleted(v) => 2 + v.as_ref().map_or(0, |v| 1 + v.len() as u64),
                        Res::Root(h) => u64::from_le_bytes(h[..8].try_into().unwrap()),
                        Res::Panic => 3,
                    });
                }
                w.check("a shipped trie evolves like the full one", a == b, || {
                    let i = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(0);
                    format!(
                        "job {job} of round {round} on {}: operations {:?}, the worker's answer {i} is {:?}, the full trie's is {:?}",
                        show(&entries),
                        jobs[job].ops,
                        a.get(i),
                        b.get(i)
                    )
                });
                open.retain(|x| *x != job);
            }
        }
        w.check("every job completes once faults stop", open.is_empty(), String::new);
        if let Some(t) = after {
            full = t;
        }
    }
}

fn worker<N: SimTrie>(s: &Shared<N>, p: &Pipe, me: usize) {
    let w = &s.w;
    let mut ops_done = 0u64;
    let mut crashes: Vec<(u16, u32)> = p.crashes.iter().filter(|c| c.0 as usize == me - 1).map(|c| (c.1, c.2)).collect();
    crashes.sort();
    while !s.done.get() && !w.stopped() {
        let Some(m) = s.net.recv(me, now() + 3000) else { continue };
        let Msg::Work { round, job, body, altered } = m else { continue };
        let spec = &p.rounds[round][job];
        let limit = body.len() as u64 + 64;
        w.op("receive");
        let root = s.roots.borrow()[round];
        let sent = s.shipped.borrow()[&(round, job)].clone();
        let mut got = None;
        // The producer falls back to the first format for deep tries.
        for f in [p.fmt % 3, 0] {
            if let Ok(Ok(t)) = call(|| decode::<N, _>(f, limit, &mut &body[..])) {
                got = Some(t);
                break;
            }
        }
        let Some(mut t) = got else {
            w.check("an intact trie arrives", altered, || {
                format!("the intact frame of job {job} in round {round} ({}) cannot be read", show(&sent.entries()))
            });
            continue;
        };
        if !all_well_formed(&t, 0) {
            continue;
        }
        let ok = matches!(call(|| t.hash().0), Ok(h) if h == root);
        if !ok {
            w.check("an intact trie verifies", altered, || {
                format!("the intact frame of job {job} in round {round} ({}) does not have the base's root", show(&sent.entries()))
            });
            continue;
        }
        w.check("an altered trie is never taken for the original", same(&t, &sent), || {
            format!(
                "an altered frame loads as {} and reports the root of {}",
                show(&to_ref(&t).entries()),
                show(&sent.entries())
            )
        });
        if spec.relay {
            // Narrow it further: only what the updates need, through another file.
            let keys = s.needed.borrow()[&(round, job)].clone();
            let r = call(|| create_trie_subset(&t, keys.iter().map(|k| SimKey(k))).ok());
            match r {
                Ok(Some(n)) => {
                    let b = encode(0, &n);
                    let back = b.and_then(|b| decode::<N, _>(0, b.len() as u64 + 64, &mut &b[..]).ok());
                    match back {
                        Some(x) => t = x,
                        None => w.fail("a subset can be serialized", "a subset of a subset does not survive serialization".into()),
                    }
                }
                _ => w.fail(
                    "a subset for the updates can be made",
                    format!("no subset of {} for {:?}", show(&to_ref(&t).entries()), spec.ops),
                ),
            }
        }
        probe(s, &t, &spec.probes);
        let results = work(&mut t, &spec.ops, |_| {
            ops_done += 1;
        });
        if let Some((at, down)) = crashes.first().copied() {
            if ops_done > at as u64 {
                // The process dies in the middle of this job: no answer, memory and queue gone.
                crashes.remove(0);
                faults::count(fired::CRASH);
                drop(t);
                s.net.queues.borrow_mut()[me].clear();
                sleep(down as u64 + 1);
                continue;
            }
        }
        s.net.send(0, me - 1, Msg::Ack { round, job, results: Rc::new(results) });
    }
}

/// Operations that reach a hidden part are refused and change nothing.
fn probe<N: SimTrie>(s: &Shared<N>, t: &N, keys: &[Key]) {
    let w = &s.w;
    let tree = to_ref(t);
    let e = tree.entries();
    for k in keys {
        if !hidden_at(&e, &k.0) {
            continue;
        }
        for del in [false, true] {
            let mut c = t.clone();
            let op = if del { JOp::Del(k.clone()) } else { JOp::Ins(k.clone(), Val(Ent::V(vec![1]))) };
            let r = apply(&mut c, &op);
            faults::count(fired::REFUSED);
            w.check("updates of hidden parts are refused", r == Res::Panic, || {
                format!("{op:?} on {} is accepted although the key is hidden", show(&e))
            });
        }
    }
}

fn noise<N: SimTrie>(s: &Shared<N>, p: &Pipe) {
    let mut mine: Option<N> = None;
    for (i, o) in p.noise.iter().enumerate() {
        if s.done.get() || s.w.stopped() {
            return;
        }
        if i % 3 == 0 {
            mine = s.base.borrow().clone();
        }
        match &mut mine {
            Some(t) => {
                apply(t, o);
            }
            None => sleep(300),
        }
        point(Kind::Op);
    }
}
