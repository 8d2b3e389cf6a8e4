//! What one run does: a self-contained, serialisable plan, and its seeded generator.

use crate::faults::{Act, Fault, Io, Site};
use crate::model::Ent;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use simrt::{Rng, Sched};

/// A key as a list of nibbles, written as hex digits.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Key(pub Vec<u8>);

impl Serialize for Key {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let t: String = self.0.iter().map(|n| char::from_digit(*n as u32, 16).unwrap()).collect();
        s.serialize_str(&t)
    }
}
impl<'de> Deserialize<'de> for Key {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let t = String::deserialize(d)?;
        t.chars()
            .map(|c| c.to_digit(16).map(|x| x as u8))
            .collect::<Option<Vec<_>>>()
            .map(Key)
            .ok_or_else(|| serde::de::Error::custom("bad key"))
    }
}

/// A value ("v:<hex>") or hidden part ("h:<hex>").
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Val(pub Ent);

impl Serialize for Val {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match &self.0 {
            Ent::V(v) => s.serialize_str(&format!("v:{}", crate::model::hex(v))),
            Ent::H(h) => s.serialize_str(&format!("h:{}", crate::model::hex(h))),
        }
    }
}
impl<'de> Deserialize<'de> for Val {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let t = String::deserialize(d)?;
        let bad = || serde::de::Error::custom("bad value");
        let (k, x) = t.split_once(':').ok_or_else(bad)?;
        let b: Vec<u8> = (0..x.len() / 2)
            .map(|i| u8::from_str_radix(&x[2 * i..2 * i + 2], 16))
            .collect::<Result<_, _>>()
            .map_err(|_| bad())?;
        Ok(Val(match k {
            "v" => Ent::V(b),
            _ => Ent::H(b.try_into().map_err(|_| bad())?),
        }))
    }
}

/// A handle: owned by the task, frozen (shared, read-only) or guarded by a lock.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum R {
    O(u8),
    F(u8),
    G(u8),
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Edit {
    /// Set the value of the leaf or branch reached.
    Value(Val),
    /// Replace the node reached by a hash node.
    Hide,
    /// Put another trie (with its caches) in place of the node reached.
    Graft(R),
    /// Put another trie's node, without its cache cell, in place of the node reached.
    GraftNode(R),
    /// Empty a child slot of the branch reached.
    Clear(u8),
    /// Let another child slot of the branch reached share an occupied one's node.
    Share(u8, u8),
    /// Ask for mutable access but change nothing.
    Touch,
    /// Swap the nodes of two tries.
    Swap(u8),
    /// Move the node out, leaving an empty trie.
    Take(u8),
}

/// Operations a caller-supplied iterator performs before yielding item `.0`.
pub type Reenter = Vec<(u16, Vec<Op>)>;

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Op {
    Insert { t: R, k: Key, v: Val, f: Option<Fault> },
    Extend { t: R, kv: Vec<(Key, Val)>, f: Option<Fault>, re: Reenter },
    Collect { d: u8, kv: Vec<(Key, Val)>, f: Option<Fault>, re: Reenter },
    Delete { t: R, k: Key, f: Option<Fault> },
    Get { t: R, k: Key, f: Option<Fault> },
    Hash { t: R },
    Clone { s: R, d: u8 },
    Sub { s: R, path: Key, d: u8 },
    Rebuild { s: R, d: u8 },
    Edit { t: u8, path: Key, e: Edit },
    Subset { s: R, ks: Vec<Key>, d: u8, f: Option<Fault>, re: Reenter },
    Subsets { s: R, ks: Vec<Vec<Key>>, d: u8, f: Option<Fault>, re: Reenter },
    Save { s: R, file: u8, fmt: u8, io: Io, trunc: Option<u32>, flip: Option<(u32, u8)> },
    Load { file: u8, d: u8, io: Io },
    Iter { s: R, what: u8, during: Vec<(u16, Op)> },
    Eq { a: R, b: R },
    Diff { a: R, b: R },
    Info { s: R, k: Key },
    /// Runs `ops` in the n-th key (or value) conversion that `op` asks the caller for.
    During { op: Box<Op>, value: bool, n: u16, ops: Vec<Op> },
    /// Runs `ops` n times. From 1000 on, those in the middle are done quickly and unwatched
    /// (inserts and lookups only).
    Repeat { ops: Vec<Op>, n: u32 },
    Drop { d: u8 },
    Publish { s: u8, g: u8 },
    Send { s: u8 },
    Recv { d: u8 },
    Stall { n: u16 },
    Freeze { s: u8 },
    Guard { s: u8 },
    /// The task dies here (a fault).
    Die,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum SchedSpec {
    Uniform,
    Sticky(u64),
    Priorities(usize, u64),
    FewPreemptions(usize, u64),
    RoundRobin(u64),
    Explicit(Vec<(u64, usize)>),
    Serial,
}

impl SchedSpec {
    pub fn get(&self) -> Sched {
        match self {
            SchedSpec::Uniform => Sched::Uniform,
            SchedSpec::Sticky(n) => Sched::Sticky(*n),
            SchedSpec::Priorities(c, h) => Sched::Priorities { changes: *c, horizon: *h },
            SchedSpec::FewPreemptions(c, h) => Sched::FewPreemptions { preemptions: *c, horizon: *h },
            SchedSpec::RoundRobin(n) => Sched::RoundRobin(*n),
            SchedSpec::Explicit(v) => Sched::Explicit(v.clone()),
            SchedSpec::Serial => Sched::Serial,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Plan {
    pub prop: String,
    /// true: the hash-caching trie type.
    pub caching: bool,
    pub log_format: bool,
    /// Chooses the forms keys and values are given in (0: plain).
    #[serde(default)]
    pub forms: u64,
    pub setup: Vec<Op>,
    pub tasks: Vec<Vec<Op>>,
    pub sched: SchedSpec,
    pub sched_seed: u64,
    /// Present in runs of the producer/consumer scenario.
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub pipe: Option<crate::pipeline::Pipe>,
}

impl Plan {
    pub fn size(&self) -> usize {
        fn ops(v: &[Op]) -> usize {
            v.iter()
                .map(|o| match o {
                    Op::Extend { kv, re, .. } | Op::Collect { kv, re, .. } => {
                        1 + kv.len() + re.iter().map(|r| ops(&r.1)).sum::<usize>()
                    }
                    Op::Iter { during, .. } => 1 + during.len(),
                    Op::During { op, ops: o, .. } => ops(std::slice::from_ref(op)) + ops(o),
                    Op::Repeat { ops: o, n } => ops(o) + 1 + (*n).min(9) as usize,
                    _ => 1,
                })
                .sum()
        }
        ops(&self.setup) + self.tasks.iter().map(|t| ops(t)).sum::<usize>()
    }
}

pub const SLOTS: usize = 4;
pub const FILES: usize = 3;

// ---- generation -------------------------------------------------------------------------

pub struct KeyGen {
    pub pool: Vec<Vec<u8>>,
    alphabet: Vec<u8>,
    fixed: bool,
    max: usize,
    sizes: Vec<usize>,
    low_entropy: bool,
    /// Start with all the keys of the pool.
    whole: bool,
}

impl KeyGen {
    pub fn new(r: &mut Rng, variable: bool, big: bool) -> Self {
        let mut alphabet: Vec<u8> = (0..16).collect();
        r.shuffle(&mut alphabet);
        let n = *r.pick(&[2usize, 2, 3, 4, 6, 16]);
        alphabet.truncate(n);
        if r.chance(1, 3) && !alphabet.contains(&0) {
            alphabet[0] = 0;
        }
        if r.chance(1, 4) && !alphabet.contains(&15) {
            let l = alphabet.len() - 1;
            alphabet[l] = 15;
        }
        let mut pool_n = *r.pick(&[2usize, 3, 4, 5, 6, 8, 10, 12, 16, 24]);
        if r.chance(1, 60) {
            pool_n = 120;
        } else if r.chance(1, 400) {
            pool_n = 700;
        }
        if big {
            pool_n = *r.pick(&[8usize, 16, 32, 60, 120]);
        }
        let mode = r.below(if variable { 8 } else { 4 });
        let mut pool: Vec<Vec<u8>> = vec![];
        let sym = |r: &mut Rng, a: &[u8]| *r.pick(a);
        let (fixed, max);
        match mode {
            0 | 1 => {
                let l = *r.pick(&[1usize, 2, 3, 4, 5, 6, 8]);
                fixed = true;
                max = l;
                for _ in 0..pool_n {
                    pool.push((0..l).map(|_| sym(r, &alphabet)).collect());
                }
            }
            2 | 3 => {
                // Long keys of one length that share prefixes of random length.
                let l = *r.pick(&[64usize, 64, 40, 63, 32]);
                fixed = true;
                max = l;
                pool.push((0..l).map(|_| sym(r, &alphabet)).collect());
                while pool.len() < pool_n {
                    let b = r.pick(&pool).clone();
                    let keep = r.range(0, l - 1);
                    let mut k = b[..keep].to_vec();
                    while k.len() < l {
                        k.push(if r.chance(1, 2) { b[k.len()] } else { sym(r, &alphabet) });
                    }
                    pool.push(k);
                }
            }
            4 | 5 => {
                let l = *r.pick(&[2usize, 3, 4, 6]);
                fixed = false;
                max = l;
                for _ in 0..pool_n {
                    let n = r.range(0, l);
                    pool.push((0..n).map(|_| sym(r, &alphabet)).collect());
                }
            }
            6 => {
                // Chains of prefixes.
                fixed = false;
                max = *r.pick(&[6usize, 10, 64]);
                pool.push((0..r.range(0, 3)).map(|_| sym(r, &alphabet)).collect());
                while pool.len() < pool_n {
                    let mut k = r.pick(&pool).clone();
                    if r.chance(1, 4) && !k.is_empty() {
                        k.truncate(r.range(0, k.len() - 1));
                    }
                    for _ in 0..r.range(1, 3) {
                        if k.len() < max {
                            k.push(sym(r, &alphabet));
                        }
                    }
                    pool.push(k);
                }
            }
            _ => {
                // Lengths around the maximum.
                fixed = false;
                max = 64;
                let b: Vec<u8> = (0..64).map(|_| sym(r, &alphabet)).collect();
                for _ in 0..pool_n {
                    let mut k = b.clone();
                    let at = r.range(50, 63);
                    k[at] = sym(r, &alphabet);
                    k.truncate(*r.pick(&[64usize, 64, 63, 62, 60, at + 1]));
                    pool.push(k);
                }
            }
        }
        if r.chance(1, 12) {
            // Runs of zeros.
            for k in pool.iter_mut() {
                if !k.is_empty() && r.chance(1, 2) {
                    let at = if r.chance(1, 2) { 0 } else { r.range(0, k.len() - 1) };
                    let to = if r.chance(1, 6) { k.len() } else { r.range(at, k.len()) };
                    k[at..to].fill(0);
                }
            }
        }
        let mut max = max;
        let whole = pool_n <= 24 && r.chance(1, 40);
        if whole && !fixed && r.chance(1, 2) {
            // A key with all its prefixes: the deepest trie there is.
            max = 64;
            let k: Vec<u8> = (0..64).map(|_| sym(r, &alphabet)).collect();
            pool = (0..=64).map(|n| k[..n].to_vec()).collect();
        } else if whole {
            // A branch with all its children, and if lengths may differ with a value.
            let mut k = r.pick(&pool).clone();
            if !fixed && k.len() == 64 {
                k.pop();
            } else if !fixed {
                pool.push(k.clone());
            } else {
                k.pop();
            }
            for x in 0..16 {
                pool.push(k.iter().copied().chain([x]).collect());
            }
        }
        let mut sizes = vec![];
        for _ in 0..r.range(1, 4) {
            sizes.push(*r.pick(&[1usize, 1, 2, 3, 8, 20, 28, 29, 30, 31, 32, 33, 34, 40, 54, 55, 56, 57, 120, 255, 256, 1024]));
        }
        if r.chance(1, 5) {
            // Nodes whose encoding is just below, at and above 32 bytes.
            sizes = (20..34).collect();
        } else if r.chance(1, 400) {
            sizes.push(*r.pick(&[65_535usize, 65_536, 65_537, 70_000]));
        }
        KeyGen { pool, alphabet, fixed, max, sizes, low_entropy: r.chance(1, 3), whole }
    }

    pub fn key(&self, r: &mut Rng) -> Key {
        let mut k = r.pick(&self.pool).clone();
        if r.chance(1, 4) {
            match r.below(if self.fixed { 1 } else { 4 }) {
                0 => {
                    if !k.is_empty() {
                        let i = r.below(k.len() as u64) as usize;
                        k[i] = *r.pick(&self.alphabet);
                    }
                }
                1 => {
                    if !k.is_empty() {
                        k.truncate(r.below(k.len() as u64) as usize);
                    }
                }
                2 => {
                    if k.len() < 64.min(self.max + 2) {
                        k.push(*r.pick(&self.alphabet));
                    }
                }
                _ => {
                    k = vec![*r.pick(&self.alphabet); r.range(0, self.max)];
                }
            }
        }
        Key(k)
    }

    /// A key of any length, related to the stored ones (for reads).
    pub fn any_key(&self, r: &mut Rng) -> Key {
        let mut k = self.key(r);
        match r.below(9) {
            0 => {
                let n = r.range(0, k.0.len());
                k.0.truncate(n);
            }
            3 => {
                // The same number with more or fewer leading zeros.
                if k.0.first() == Some(&0) && r.chance(1, 2) {
                    k.0.remove(0);
                } else if k.0.len() < 64 {
                    k.0.insert(0, 0);
                }
            }
            1 => {
                for _ in 0..r.range(1, 3) {
                    if k.0.len() < 64 {
                        k.0.push(*r.pick(&self.alphabet));
                    }
                }
            }
            2 => {
                if !k.0.is_empty() {
                    let i = r.below(k.0.len() as u64) as usize;
                    k.0[i] = r.below(16) as u8;
                }
            }
            _ => {}
        }
        k
    }

    pub fn val(&self, r: &mut Rng) -> Val {
        let n = *r.pick(&self.sizes);
        let b = if self.low_entropy { *r.pick(&[0u8, 1, 0x7f, 0x80, 0xff]) } else { r.below(256) as u8 };
        let mut v = vec![b; n];
        if !self.low_entropy {
            for x in v.iter_mut().take(4) {
                *x = r.below(256) as u8;
            }
        }
        Val(Ent::V(v))
    }

    pub fn hash_val(&self, r: &mut Rng) -> Val {
        let mut h = [0u8; 32];
        let b = r.below(200) as u8 + 1;
        h.fill(b);
        match r.chance(1, 3) {
            true => h[r.below(32) as usize] = r.below(256) as u8,
            false => h[0] = r.below(256) as u8,
        }
        match r.below(20) {
            0 => h = [0; 32],
            1 => h = crate::model::empty_root(),
            _ => {}
        }
        Val(Ent::H(h))
    }
}

/// Relative frequencies of the operations of a property's programs.
#[derive(Clone)]
struct W {
    insert: u32,
    insert_hash: u32,
    extend: u32,
    collect: u32,
    delete: u32,
    get: u32,
    hash: u32,
    clone: u32,
    sub: u32,
    rebuild: u32,
    edit: u32,
    subset: u32,
    subsets: u32,
    save: u32,
    load: u32,
    iter: u32,
    eq: u32,
    diff: u32,
    info: u32,
    drop: u32,
    publish: u32,
    send: u32,
    recv: u32,
    stall: u32,
}

struct Profile {
    w: W,
    /// Probability (percent) of a panic fault on an operation that can have one.
    fault: u64,
    stall_fault: u64,
    reenter: u64,
    tasks: (usize, usize),
    ops: (usize, usize),
    variable: bool,
    partial: bool,
    standard: u64,
    guarded: bool,
}

fn profile(prop: &str, r: &mut Rng) -> Profile {
    let base = W {
        insert: 14, insert_hash: 1, extend: 4, collect: 1, delete: 9, get: 5, hash: 12, clone: 7, sub: 4,
        rebuild: 1, edit: 3, subset: 3, subsets: 1, save: 1, load: 1, iter: 2, eq: 2, diff: 1, info: 1, drop: 1,
        publish: 2, send: 1, recv: 1, stall: 1,
    };
    let mut p = Profile {
        w: base.clone(), fault: 4, stall_fault: 3, reenter: 10, tasks: (1, 4), ops: (6, 36), variable: true,
        partial: true, standard: 12, guarded: true,
    };
    match prop {
        "C01" => {
            p.w = W { hash: 26, sub: 9, edit: 12, clone: 9, get: 1, subset: 5, iter: 1, load: 2, save: 2, ..base };
            p.fault = 6;
        }
        "C02" => {
            p.w = W { clone: 14, sub: 8, iter: 8, eq: 5, edit: 8, hash: 14, delete: 14, ..base };
        }
        "C03" => {
            p.w = W { insert: 24, insert_hash: 2, delete: 22, get: 24, extend: 5, hash: 3, clone: 4, sub: 1, edit: 0,
                rebuild: 1, subset: 1, subsets: 0, diff: 0, info: 0, iter: 1, ..base };
            p.tasks = (1, 3);
            p.ops = (10, 60);
            p.standard = 40;
        }
        "C04" => {
            p.w = W { insert: 22, insert_hash: 0, delete: 22, hash: 18, eq: 8, extend: 6, collect: 3, edit: 0, subset: 0,
                subsets: 0, save: 2, load: 2, diff: 0, info: 0, iter: 1, clone: 6, sub: 1, ..base };
            p.partial = false;
            p.fault = 10;
            p.ops = (10, 60);
            p.tasks = (1, 3);
            p.standard = 25;
        }
        "C05" => {
            p.w = W { subset: 34, subsets: 6, hash: 12, insert: 10, delete: 6, get: 2, edit: 3, ..base };
            p.ops = (4, 24);
        }
        "C07" => {
            p.w = W { subsets: 34, subset: 8, hash: 12, insert: 10, delete: 6, get: 1, edit: 2, ..base };
            p.ops = (4, 20);
        }
        "C08" => {
            p.w = W { insert: 20, extend: 16, collect: 2, delete: 18, hash: 12, insert_hash: 2, subset: 5, subsets: 3, get: 6,
                edit: 4, ..base };
            p.fault = 45;
        }
        "C09" => {
            p.w = W { save: 20, load: 22, hash: 16, insert: 12, delete: 8, subset: 4, get: 2, edit: 4, ..base };
            p.ops = (6, 28);
        }
        "C10" => {
            p.w = W { hash: 24, eq: 6, info: 6, save: 4, load: 2, subset: 8, subsets: 4, iter: 5, clone: 8, diff: 4, get: 2,
                extend: 7, ..base };
            p.tasks = (2, 6);
            p.ops = (4, 20);
            p.reenter = 45;
            p.fault = 8;
            p.stall_fault = 8;
            p.standard = 3;
        }
        "C11" => {
            p.w = W { insert: 3, extend: 1, delete: 2, edit: 1, get: 10, hash: 18, iter: 8, eq: 8, info: 10, diff: 8,
                subset: 10, subsets: 5, save: 8, load: 2, clone: 5, sub: 3, publish: 1, ..base };
            p.tasks = (2, 5);
            p.ops = (4, 20);
            p.standard = 15;
        }
        "C12" => {
            p.w = W { iter: 30, insert: 16, delete: 10, insert_hash: 4, clone: 8, edit: 4, subset: 5, hash: 4, ..base };
            p.standard = 40;
        }
        "C19" => {
            p.w = W { hash: 30, clone: 10, insert: 12, delete: 9, sub: 4, edit: 6, subset: 2, iter: 1, info: 0, diff: 0, save: 1,
                load: 1, ..base };
            p.standard = 0;
            p.ops = (6, 30);
        }
        "C14" | "C15" => {
            p.w = W { insert: 22, insert_hash: 3, delete: 14, get: 24, extend: 8, collect: 2, subset: 4, hash: 1, edit: 0, diff: 0,
                info: 0, iter: 1, save: 0, load: 0, eq: 0, ..base };
            p.standard = 40;
            p.fault = 2;
        }
        "C17" => {
            p.w = W { info: 30, insert: 16, delete: 10, insert_hash: 4, clone: 5, edit: 5, subset: 8, hash: 3, iter: 0, diff: 0, ..base };
            p.standard = 40;
        }
        "C18" => {
            p.w = W { info: 34, insert: 16, delete: 10, insert_hash: 3, clone: 5, edit: 4, subset: 7, hash: 3, iter: 0, diff: 0, ..base };
            p.standard = 40;
        }
        "C13" => {
            p.w = W { diff: 30, insert: 14, delete: 9, clone: 10, subset: 6, hash: 8, edit: 6, save: 1, load: 2, iter: 0, ..base };
            p.standard = 0;
        }
        _ => {}
    }
    // Swarm: leave out some kinds of operations in each run.
    {
        let keep = match prop {
            "C05" | "C07" => 8,
            _ => 7,
        };
        let info = p.w.info;
        let w = &mut p.w;
        for x in [
            &mut w.insert_hash, &mut w.extend, &mut w.collect, &mut w.sub, &mut w.rebuild, &mut w.edit, &mut w.get,
            &mut w.info, &mut w.drop, &mut w.publish, &mut w.send, &mut w.stall, &mut w.eq,
        ] {
            if !r.chance(keep, 10) {
                *x = 0;
            } else if r.chance(1, 8) {
                *x *= 4;
            }
        }
        if ["C17", "C18"].contains(&prop) {
            w.info = info;
        }
        match r.below(6) {
            0 => w.delete = 0,
            1 => w.delete *= 3,
            2 => w.insert *= 2,
            _ => {}
        }
        if !p.partial {
            w.insert_hash = 0;
        }
    }
    match r.below(4) {
        0 => p.fault = if prop == "C08" { 15 } else { 0 },
        1 if prop != "C08" => p.fault *= 2,
        _ => {}
    }
    if r.chance(1, 3) {
        p.stall_fault = 0;
    }
    p
}

pub struct Gen<'a> {
    pub r: &'a mut Rng,
    p: Profile,
    pub kg: KeyGen,
    frozen: u8,
    guarded: u8,
}

fn sched(r: &mut Rng) -> SchedSpec {
    let horizon = *r.pick(&[40u64, 120, 300, 800, 2500]);
    match r.below(10) {
        0..=2 => SchedSpec::Uniform,
        3 | 4 => SchedSpec::Sticky(*r.pick(&[2u64, 4, 10, 30])),
        5 | 6 => SchedSpec::Priorities(r.range(1, 6), horizon),
        7 | 8 => SchedSpec::FewPreemptions(r.range(1, 5), horizon),
        _ => SchedSpec::RoundRobin(*r.pick(&[1u64, 2, 3, 7])),
    }
}

pub fn generate(prop: &str, seed: u64) -> Plan {
    let mut r = Rng::new(seed);
    let sched_seed = r.next();
    let s = sched(&mut r);
    if prop == "C06" {
        let log_format = r.chance(1, 8);
        let pipe = crate::pipeline::generate(&mut r);
        return Plan {
            prop: prop.into(),
            caching: pipe.caching,
            log_format,
            forms: 0,
            setup: vec![],
            tasks: vec![],
            sched: s,
            sched_seed,
            pipe: Some(pipe),
        };
    }
    let p = profile(prop, &mut r);
    let mut kg = KeyGen::new(&mut r, p.variable, prop == "C19");
    if prop == "C14" && r.chance(2, 3) {
        // Sizes of integers.
        kg.sizes = vec![1, 2, 4, 8, 16, 32, 64];
        kg.low_entropy = false;
    }
    let caching = !r.chance(p.standard, 100);
    let n_tasks = if r.chance(1, 5) { p.tasks.0 } else { r.range(p.tasks.0, p.tasks.1) };
    let per = if n_tasks == 1 { p.ops.1 } else { (p.ops.1 * 2 / (n_tasks + 1)).max(p.ops.0 + 1) };
    let ops_range = (p.ops.0, per);
    let log_format = r.chance(1, 8);
    let forms = match prop {
        "C14" | "C15" => r.next() | 1,
        _ => 0,
    };
    let mut g = Gen { r: &mut r, p, kg, frozen: 0, guarded: 0 };
    let setup = g.setup();
    let mut tasks = vec![];
    for _ in 0..n_tasks {
        let n = g.r.range(ops_range.0, ops_range.1);
        tasks.push(g.program(n));
    }
    Plan { prop: prop.into(), caching, log_format, forms, setup, tasks, sched: s, sched_seed, pipe: None }
}

impl Gen<'_> {
    fn kv(&mut self, n: usize) -> Vec<(Key, Val)> {
        (0..n)
            .map(|_| {
                let hidden = self.p.partial && self.p.w.insert_hash > 0 && self.r.chance(1, 12);
                let k = self.kg.key(self.r);
                let v = if hidden { self.kg.hash_val(self.r) } else { self.kg.val(self.r) };
                (k, v)
            })
            .collect()
    }

    fn setup(&mut self) -> Vec<Op> {
        let mut ops = vec![];
        let n_base = self.r.range(1, 2);
        for b in 0..n_base {
            let pool = self.kg.pool.len();
            let n = if self.r.chance(1, 8) { 0 } else { self.r.range(1, pool + 2) };
            let mut kv = self.kv(n);
            if self.kg.whole {
                let mut ks = self.kg.pool.clone();
                self.r.shuffle(&mut ks);
                kv = ks.into_iter().map(|k| (Key(k), self.kg.val(self.r))).collect();
            }
            match self.r.below(3) {
                0 => ops.push(Op::Collect { d: 0, kv, f: None, re: vec![] }),
                1 => {
                    ops.push(Op::Collect { d: 0, kv: vec![], f: None, re: vec![] });
                    ops.push(Op::Extend { t: R::O(0), kv, f: None, re: vec![] });
                }
                _ => {
                    ops.push(Op::Collect { d: 0, kv: vec![], f: None, re: vec![] });
                    for (k, v) in kv {
                        ops.push(Op::Insert { t: R::O(0), k, v, f: None });
                    }
                }
            }
            if self.r.chance(1, 2) {
                ops.push(Op::Hash { t: R::O(0) });
            }
            if self.r.chance(1, 4) && self.p.partial {
                let ks = self.keys(3);
                ops.push(Op::Subset { s: R::O(0), ks, d: 0, f: None, re: vec![] });
            }
            // Give the rest of the run several views of the same nodes.
            for _ in 0..self.r.range(0, 2) {
                ops.push(Op::Clone { s: R::O(0), d: 1 });
                if self.r.chance(2, 3) {
                    for _ in 0..self.r.range(1, 2) {
                        let o = self.mutation(R::O(1));
                        ops.push(o);
                    }
                }
                if self.r.chance(1, 2) {
                    ops.push(Op::Hash { t: R::O(1) });
                }
                if self.p.guarded && self.r.chance(1, 2) {
                    ops.push(Op::Guard { s: 1 });
                    self.guarded += 1;
                } else {
                    ops.push(Op::Freeze { s: 1 });
                    self.frozen += 1;
                }
            }
            if b == 0 || self.r.chance(1, 2) {
                ops.push(Op::Freeze { s: 0 });
                self.frozen += 1;
            } else if self.p.guarded {
                ops.push(Op::Guard { s: 0 });
                self.guarded += 1;
            }
        }
        ops
    }

    fn program(&mut self, n: usize) -> Vec<Op> {
        let mut ops = vec![];
        for d in 0..self.r.range(1, 3) as u8 {
            let s = self.shared();
            ops.push(Op::Clone { s, d });
        }
        for _ in 0..n {
            let o = self.op(true);
            ops.push(o);
        }
        if self.r.chance(1, 300) {
            let at = self.r.range(1, ops.len());
            ops.splice(at..at, self.repeat());
        }
        if self.r.chance(1, 40) {
            let at = self.r.below(ops.len() as u64 + 1) as usize;
            ops.insert(at, Op::Die);
        }
        ops
    }

    /// Many of the same, as often as a small counter holds.
    fn repeat(&mut self) -> Vec<Op> {
        let t = R::O(0);
        let n = *self.r.pick(&[254u32, 255, 256, 256, 257, 512]);
        let mut ops = vec![Op::Hash { t }];
        match self.r.below(6) {
            0 => {
                let n = *self.r.pick(&[65_535u32, 65_536, 65_536, 65_537]);
                let k = self.kg.key(self.r);
                let v = self.kg.val(self.r);
                ops.push(Op::Repeat { ops: vec![Op::Insert { t, k, v, f: None }], n });
            }
            1 => {
                let o = self.mutation(t);
                ops.push(Op::Repeat { ops: vec![o], n });
            }
            2 => {
                // Leaves the trie as it was.
                let k = self.kg.key(self.r);
                let v = self.kg.val(self.r);
                let o = vec![Op::Insert { t, k: k.clone(), v, f: None }, Op::Delete { t, k, f: None }];
                ops.push(Op::Repeat { ops: o, n: n / 2 });
                let o = self.mutation(t);
                ops.push(o);
            }
            _ => {
                let o = (0..self.r.range(1, 2)).map(|_| self.op(false)).collect();
                ops.push(Op::Repeat { ops: o, n });
            }
        }
        ops.push(Op::Hash { t });
        ops
    }

    fn shared(&mut self) -> R {
        if self.guarded > 0 && (self.frozen == 0 || self.r.chance(1, 2)) {
            R::G(self.r.below(self.guarded as u64) as u8)
        } else {
            R::F(self.r.below(self.frozen.max(1) as u64) as u8)
        }
    }

    fn slot(&mut self) -> u8 {
        self.r.below(SLOTS as u64) as u8
    }

    fn any(&mut self) -> R {
        if self.r.chance(1, 2) {
            self.shared()
        } else {
            R::O(self.slot())
        }
    }

    fn target(&mut self) -> R {
        if self.guarded > 0 && self.r.chance(1, 4) {
            R::G(self.r.below(self.guarded as u64) as u8)
        } else {
            R::O(self.slot())
        }
    }

    fn fault(&mut self, sites: &[Site]) -> Option<Fault> {
        let site = *self.r.pick(sites);
        let n = self.r.below(*self.r.clone().pick(&[1u64, 2, 4, 8])) as u16;
        if self.r.chance(self.p.fault, 100) {
            return Some(Fault { site, n, act: Act::Panic });
        }
        if self.r.chance(self.p.stall_fault, 100) {
            return Some(Fault { site, n, act: Act::Stall(*self.r.pick(&[3u16, 20, 200])) });
        }
        None
    }

    pub fn keys(&mut self, max: usize) -> Vec<Key> {
        (0..self.r.range(0, max)).map(|_| self.kg.any_key(self.r)).collect()
    }

    fn mutation(&mut self, t: R) -> Op {
        if self.r.chance(2, 5) {
            Op::Delete { t, k: self.kg.key(self.r), f: None }
        } else {
            Op::Insert { t, k: self.kg.key(self.r), v: self.kg.val(self.r), f: None }
        }
    }

    fn reenter(&mut self, top: bool, items: usize) -> Reenter {
        if !top || !self.r.chance(self.p.reenter, 100) {
            return vec![];
        }
        (0..self.r.range(1, 2))
            .map(|_| {
                let at = self.r.range(0, items) as u16;
                let n = self.r.range(1, 2);
                (at, (0..n).map(|_| self.op(false)).collect())
            })
            .collect()
    }

    fn io(&mut self) -> Io {
        if self.r.chance(1, 3) {
            return Io::default();
        }
        Io {
            chunk: *self.r.pick(&[0u16, 1, 2, 3, 7, 31, 64]),
            eintr: *self.r.pick(&[0u16, 0, 2, 3, 5, 17]),
            fail_at: if self.r.chance(1, 8) { Some(self.r.below(*self.r.clone().pick(&[2u64, 40, 400, 4000])) as u32) } else { None },
        }
    }

    fn op(&mut self, top: bool) -> Op {
        let op = self.plain_op(top);
        let converts = matches!(
            op,
            Op::Insert { .. } | Op::Delete { .. } | Op::Get { .. } | Op::Extend { .. } | Op::Subset { .. } | Op::Subsets { .. }
        );
        if !top || !converts || !self.r.chance(self.p.reenter, 250) {
            return op;
        }
        let value = self.r.chance(1, 3) && matches!(op, Op::Insert { .. } | Op::Extend { .. });
        let n = if matches!(op, Op::Insert { .. } | Op::Delete { .. } | Op::Get { .. }) { 0 } else { self.r.below(3) as u16 };
        let ops = (0..self.r.range(1, 2)).map(|_| self.op(false)).collect();
        Op::During { op: Box::new(op), value, n, ops }
    }

    fn plain_op(&mut self, top: bool) -> Op {
        let w = self.p.w.clone();
        let weights = [
            w.insert, w.insert_hash, w.extend, w.collect, w.delete, w.get, w.hash, w.clone, w.sub, w.rebuild, w.edit,
            w.subset, w.subsets, w.save, w.load, w.iter, w.eq, w.diff, w.info, w.drop, w.publish, w.send, w.recv, w.stall,
        ];
        let d = self.slot();
        match self.r.weighted(&weights) {
            0 => Op::Insert {
                t: self.target(),
                k: self.kg.key(self.r),
                v: self.kg.val(self.r),
                f: self.fault(&[Site::Log, Site::Log, Site::Log, Site::Key, Site::Value]),
            },
            1 => Op::Insert { t: self.target(), k: self.kg.key(self.r), v: self.kg.hash_val(self.r), f: self.fault(&[Site::Log]) },
            2 => {
                let n = if self.r.chance(1, 300) { self.r.range(200, 400) } else { self.r.range(0, 6) };
                let kv = self.kv(n);
                let f = self.fault(&[Site::Log, Site::Iter, Site::Iter, Site::Key, Site::Value]);
                Op::Extend { t: self.target(), kv, f, re: self.reenter(top, n) }
            }
            3 => {
                let n = self.r.range(0, 8);
                let kv = self.kv(n);
                let f = self.fault(&[Site::Log, Site::Iter]);
                Op::Collect { d, kv, f, re: self.reenter(top, n) }
            }
            4 => Op::Delete {
                t: self.target(),
                k: self.kg.key(self.r),
                f: self.fault(&[Site::Log, Site::Log, Site::Log, Site::Key]),
            },
            5 => Op::Get { t: self.any(), k: self.kg.any_key(self.r), f: self.fault(&[Site::Log, Site::Key]) },
            6 => Op::Hash { t: self.any() },
            7 => Op::Clone { s: self.any(), d },
            8 => {
                let mut path = self.kg.key(self.r);
                let n = self.r.range(0, path.0.len());
                path.0.truncate(n.max(1).min(path.0.len()));
                Op::Sub { s: self.any(), path, d }
            }
            9 => Op::Rebuild { s: self.any(), d },
            10 => {
                let mut path = self.kg.key(self.r);
                if self.r.chance(2, 3) {
                    let n = self.r.range(0, path.0.len());
                    path.0.truncate(n);
                }
                let e = match self.r.below(11) {
                    0..=2 => Edit::Value(self.kg.val(self.r)),
                    3 => {
                        if self.p.partial {
                            Edit::Hide
                        } else {
                            Edit::Touch
                        }
                    }
                    4 => Edit::Graft(self.any()),
                    5 => Edit::GraftNode(self.any()),
                    6 => Edit::Clear(self.r.below(16) as u8),
                    7 => Edit::Touch,
                    10 => Edit::Share(self.r.below(16) as u8, self.r.below(16) as u8),
                    8 => Edit::Swap(self.slot()),
                    _ => Edit::Take(self.slot()),
                };
                Op::Edit { t: self.slot(), path, e }
            }
            11 => {
                let ks = if self.r.chance(1, 120) {
                    let n = *self.r.pick(&[255usize, 256, 256, 256, 512, 700, 1100]);
                    (0..n).map(|_| self.kg.key(self.r)).collect()
                } else {
                    self.keys(4)
                };
                let f = self.fault(&[Site::Iter, Site::Key]);
                let n = ks.len();
                Op::Subset { s: self.any(), ks, d, f, re: self.reenter(top, n) }
            }
            12 => {
                let many = self.r.chance(1, 150);
                let groups = if many { self.r.range(250, 600) } else { self.r.range(0, 4) };
                let ks: Vec<_> = (0..groups).map(|_| self.keys(if many { 1 } else { 3 })).collect();
                let n = ks.len();
                let f = self.fault(&[Site::Iter, Site::Key]);
                Op::Subsets { s: self.any(), ks, d, f, re: self.reenter(top, n) }
            }
            13 => {
                let io = self.io();
                Op::Save {
                    s: self.any(),
                    file: self.r.below(FILES as u64) as u8,
                    fmt: *self.r.pick(&[0u8, 0, 1, 2]),
                    io,
                    trunc: if self.r.chance(1, 7) { Some(self.r.below(1 << 16) as u32) } else { None },
                    flip: if self.r.chance(1, 5) { Some((self.r.below(1 << 16) as u32, 1 << self.r.below(8))) } else { None },
                }
            }
            14 => {
                let io = self.io();
                Op::Load { file: self.r.below(FILES as u64) as u8, d, io }
            }
            15 => {
                let mut during = vec![];
                if top {
                    for _ in 0..self.r.range(0, 3) {
                        let at = self.r.range(0, 4) as u16;
                        let o = self.op(false);
                        during.push((at, o));
                    }
                }
                Op::Iter { s: self.any(), what: self.r.below(3) as u8, during }
            }
            16 => Op::Eq { a: self.any(), b: self.any() },
            17 => Op::Diff { a: self.any(), b: self.any() },
            18 => Op::Info { s: self.any(), k: self.kg.any_key(self.r) },
            19 => Op::Drop { d },
            20 => Op::Publish { s: d, g: self.slot() },
            21 => Op::Send { s: d },
            22 => Op::Recv { d },
            _ => Op::Stall { n: *self.r.pick(&[2u16, 10, 100]) },
        }
    }
}
