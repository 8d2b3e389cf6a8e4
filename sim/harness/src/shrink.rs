//! Makes a failing plan smaller while the same oracle keeps failing.

use crate::exec::{run_plan, RunResult};
use crate::faults::{self, Io};
use crate::plan::{Edit, Op, Plan, SchedSpec, Val};
use crate::model::Ent;
use std::time::{Duration, Instant};

/// Runs a plan on an OS thread of its own.
pub fn run_fresh(p: &Plan) -> RunResult {
    let p = p.clone();
    std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            faults::set_worker(true);
            SendBox(run_plan(&p))
        })
        .expect("cannot start a thread")
        .join()
        .expect("the runner itself panicked")
        .0
}

struct SendBox(RunResult);
// Nothing in a result refers to the thread that made it.
unsafe impl Send for SendBox {}

pub struct Shrinker<'a> {
    pub oracle: String,
    pub deadline: Instant,
    pub tries: u64,
    /// Decides whether a plan still fails; the default runs it in this process.
    pub fails: Option<&'a dyn Fn(&Plan) -> bool>,
}

impl Shrinker<'_> {
    fn bad(&mut self, p: &Plan) -> bool {
        self.tries += 1;
        match self.fails {
            Some(f) => f(p),
            None => run_fresh(p).viol.is_some_and(|v| v.oracle == self.oracle),
        }
    }

    fn time_left(&self) -> bool {
        Instant::now() < self.deadline
    }

    /// Fails under this or a simpler or a different schedule?
    fn accept(&mut self, p: &Plan) -> Option<Plan> {
        if !self.time_left() {
            return None;
        }
        let mut q = p.clone();
        if p.sched != SchedSpec::Explicit(vec![]) && p.sched != SchedSpec::Serial {
            q.sched = SchedSpec::Explicit(vec![]);
            if self.bad(&q) {
                return Some(q);
            }
        }
        if self.bad(p) {
            return Some(p.clone());
        }
        if self.fails.is_none() && p.sched != SchedSpec::Explicit(vec![]) {
            for i in 0..12u64 {
                q.sched = match i % 4 {
                    0 => SchedSpec::Uniform,
                    1 => SchedSpec::Sticky(4),
                    2 => SchedSpec::FewPreemptions(2, 80),
                    _ => SchedSpec::Priorities(3, 80),
                };
                q.sched_seed = p.sched_seed ^ (i + 1);
                if self.bad(&q) {
                    return Some(q);
                }
            }
        }
        None
    }

    /// Removes as many elements of a list as possible.
    fn list<T: Clone>(&mut self, p: &mut Plan, get: &dyn Fn(&mut Plan) -> &mut Vec<T>) -> bool {
        let mut any = false;
        let mut size = get(p).len();
        while size >= 1 {
            let mut at = 0;
            while at < get(p).len() && self.time_left() {
                let mut q = p.clone();
                let l = get(&mut q);
                let end = (at + size).min(l.len());
                l.drain(at..end);
                match self.accept(&q) {
                    Some(q) => {
                        *p = q;
                        any = true;
                    }
                    None => at += size,
                }
            }
            size /= 2;
        }
        any
    }

    pub fn shrink(&mut self, start: &Plan) -> Plan {
        let mut p = self.accept(start).unwrap_or_else(|| start.clone());
        loop {
            let mut any = false;
            if p.pipe.is_some() {
                any |= self.pipe(&mut p);
            } else {
                any |= self.list(&mut p, &|p| &mut p.tasks);
                for t in 0..p.tasks.len() {
                    any |= self.list(&mut p, &|p| &mut p.tasks[t]);
                }
                any |= self.list(&mut p, &|p| &mut p.setup);
                any |= self.simplify(&mut p);
            }
            if !any || !self.time_left() {
                break;
            }
        }
        self.schedule(&mut p);
        p
    }

    fn pipe(&mut self, p: &mut Plan) -> bool {
        let mut any = false;
        any |= self.list(p, &|p| &mut p.pipe.as_mut().unwrap().net);
        any |= self.list(p, &|p| &mut p.pipe.as_mut().unwrap().parts);
        any |= self.list(p, &|p| &mut p.pipe.as_mut().unwrap().crashes);
        any |= self.list(p, &|p| &mut p.pipe.as_mut().unwrap().noise);
        any |= self.list(p, &|p| &mut p.pipe.as_mut().unwrap().rounds);
        let n = p.pipe.as_ref().unwrap().rounds.len();
        for i in 0..n {
            any |= self.list(p, &|p| &mut p.pipe.as_mut().unwrap().rounds[i]);
            for j in 0..p.pipe.as_ref().unwrap().rounds[i].len() {
                any |= self.list(p, &|p| &mut p.pipe.as_mut().unwrap().rounds[i][j].ops);
                any |= self.list(p, &|p| &mut p.pipe.as_mut().unwrap().rounds[i][j].extra);
                any |= self.list(p, &|p| &mut p.pipe.as_mut().unwrap().rounds[i][j].probes);
            }
        }
        any |= self.list(p, &|p| &mut p.pipe.as_mut().unwrap().kv);
        any
    }

    fn simplify(&mut self, p: &mut Plan) -> bool {
        let mut any = false;
        let lists = 1 + p.tasks.len();
        for l in 0..lists {
            let n = if l == 0 { p.setup.len() } else { p.tasks[l - 1].len() };
            for i in 0..n {
                let at = |p: &mut Plan| -> *mut Op {
                    if l == 0 {
                        &mut p.setup[i]
                    } else {
                        &mut p.tasks[l - 1][i]
                    }
                };
                let mut tries = 0;
                loop {
                    let cur = unsafe { (*at(p)).clone() };
                    let cands = simpler(&cur);
                    let mut done = true;
                    for c in cands {
                        if !self.time_left() || tries > 200 {
                            return any;
                        }
                        tries += 1;
                        let mut q = p.clone();
                        unsafe { *at(&mut q) = c };
                        if let Some(q) = self.accept(&q) {
                            *p = q;
                            any = true;
                            done = false;
                            break;
                        }
                    }
                    if done {
                        break;
                    }
                }
            }
        }
        any
    }

    /// Replaces the scheduler by the shortest list of explicit choices.
    fn schedule(&mut self, p: &mut Plan) {
        if self.fails.is_some() {
            return;
        }
        if p.sched == SchedSpec::Serial {
            return;
        }
        if let SchedSpec::Explicit(_) = p.sched {
        } else {
            let r = run_fresh(p);
            let mut q = p.clone();
            q.sched = SchedSpec::Explicit(r.choices);
            if !self.bad(&q) {
                return;
            }
            *p = q;
        }
        let deadline = Instant::now() + Duration::from_secs(8);
        let SchedSpec::Explicit(mut best) = p.sched.clone() else { return };
        let mut size = best.len();
        while size >= 1 {
            let mut at = 0;
            while at < best.len() && Instant::now() < deadline {
                let mut c = best.clone();
                let end = (at + size).min(c.len());
                c.drain(at..end);
                let mut q = p.clone();
                q.sched = SchedSpec::Explicit(c.clone());
                if self.bad(&q) {
                    best = c;
                } else {
                    at += size;
                }
            }
            size /= 2;
        }
        p.sched = SchedSpec::Explicit(best);
    }
}

fn drop_each<T: Clone>(v: &[T]) -> Vec<Vec<T>> {
    (0..v.len())
        .map(|i| {
            let mut w = v.to_vec();
            w.remove(i);
            w
        })
        .collect()
}

fn short(v: &Val) -> Option<Val> {
    match &v.0 {
        Ent::V(b) if b.len() > 1 => Some(Val(Ent::V(vec![b[0].max(1)]))),
        _ => None,
    }
}

/// Slightly simpler versions of an operation.
fn simpler(o: &Op) -> Vec<Op> {
    let mut out = vec![];
    match o {
        Op::Insert { t, k, v, f } => {
            if f.is_some() {
                out.push(Op::Insert { t: *t, k: k.clone(), v: v.clone(), f: None });
            }
            if let Some(v) = short(v) {
                out.push(Op::Insert { t: *t, k: k.clone(), v, f: *f });
            }
        }
        Op::Delete { t, k, f: Some(_) } => out.push(Op::Delete { t: *t, k: k.clone(), f: None }),
        Op::Get { t, k, f: Some(_) } => out.push(Op::Get { t: *t, k: k.clone(), f: None }),
        Op::Extend { t, kv, f, re } => {
            if f.is_some() {
                out.push(Op::Extend { t: *t, kv: kv.clone(), f: None, re: re.clone() });
            }
            if !re.is_empty() {
                out.push(Op::Extend { t: *t, kv: kv.clone(), f: *f, re: vec![] });
            }
            for kv in drop_each(kv) {
                out.push(Op::Extend { t: *t, kv, f: *f, re: re.clone() });
            }
        }
        Op::Collect { d, kv, f, re } => {
            if f.is_some() || !re.is_empty() {
                out.push(Op::Collect { d: *d, kv: kv.clone(), f: None, re: vec![] });
            }
            for kv in drop_each(kv) {
                out.push(Op::Collect { d: *d, kv, f: *f, re: re.clone() });
            }
            for i in 0..kv.len() {
                if let Some(v) = short(&kv[i].1) {
                    let mut kv = kv.clone();
                    kv[i].1 = v;
                    out.push(Op::Collect { d: *d, kv, f: *f, re: re.clone() });
                }
            }
        }
        Op::Subset { s, ks, d, f, re } => {
            if f.is_some() || !re.is_empty() {
                out.push(Op::Subset { s: *s, ks: ks.clone(), d: *d, f: None, re: vec![] });
            }
            for ks in drop_each(ks) {
                out.push(Op::Subset { s: *s, ks, d: *d, f: *f, re: re.clone() });
            }
        }
        Op::Subsets { s, ks, d, f, re } => {
            if f.is_some() || !re.is_empty() {
                out.push(Op::Subsets { s: *s, ks: ks.clone(), d: *d, f: None, re: vec![] });
            }
            for ks in drop_each(ks) {
                out.push(Op::Subsets { s: *s, ks, d: *d, f: *f, re: re.clone() });
            }
            for i in 0..ks.len() {
                for g in drop_each(&ks[i]) {
                    let mut ks = ks.clone();
                    ks[i] = g;
                    out.push(Op::Subsets { s: *s, ks, d: *d, f: *f, re: re.clone() });
                }
            }
        }
        Op::Save { s, file, fmt, io, trunc, flip } => {
            let mk = |fmt, io: Io, trunc, flip| Op::Save { s: *s, file: *file, fmt, io, trunc, flip };
            if *io != Io::default() {
                out.push(mk(*fmt, Io::default(), *trunc, *flip));
            }
            if trunc.is_some() {
                out.push(mk(*fmt, io.clone(), None, *flip));
            }
            if flip.is_some() {
                out.push(mk(*fmt, io.clone(), *trunc, None));
            }
        }
        Op::Load { file, d, io } if *io != Io::default() => {
            out.push(Op::Load { file: *file, d: *d, io: Io::default() });
        }
        Op::Iter { s, what, during } => {
            for during in drop_each(during) {
                out.push(Op::Iter { s: *s, what: *what, during });
            }
        }
        Op::During { op, value, n, ops } => {
            out.push((**op).clone());
            out.extend(ops.iter().cloned());
            let mk = |op: Op, ops: Vec<Op>| Op::During { op: Box::new(op), value: *value, n: *n, ops };
            for ops in drop_each(ops) {
                out.push(mk((**op).clone(), ops));
            }
            for o in simpler(op) {
                out.push(mk(o, ops.clone()));
            }
        }
        Op::Repeat { ops, n } => {
            out.extend(ops.iter().cloned());
            let mk = |ops: Vec<Op>, n: u32| Op::Repeat { ops, n };
            for m in [2, n / 2, n - n / 4, n.saturating_sub(1)] {
                if m > 0 && m < *n {
                    out.push(mk(ops.clone(), m));
                }
            }
            for o in drop_each(ops) {
                out.push(mk(o, *n));
            }
        }
        Op::Edit { t, path, e: Edit::Value(v) } => {
            if let Some(v) = short(v) {
                out.push(Op::Edit { t: *t, path: path.clone(), e: Edit::Value(v) });
            }
        }
        _ => {}
    }
    out
}
