//! The reference model: plain maps, a canonical Merkle-Patricia tree built from them, own
//! RLP and keccak. Nothing here calls the code under test except to read public fields.

use eth_trie_utils::nibbles::Nibbles;
use eth_trie_utils::partial_trie::{Node, PartialTrie};
use ethereum_types::{H256, U512};
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::Arc;
use tiny_keccak::{Hasher, Keccak};

pub type H = [u8; 32];

#[derive(Clone, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Ent {
    V(Vec<u8>),
    H(H),
}

/// Nibble path -> value or hidden part.
pub type Entries = BTreeMap<Vec<u8>, Ent>;

#[derive(PartialEq, Eq, Debug)]
pub enum RefNode {
    Empty,
    Hash(H),
    Branch(Vec<Rc<RefNode>>, Vec<u8>),
    Ext(Vec<u8>, Rc<RefNode>),
    Leaf(Vec<u8>, Vec<u8>),
}
use RefNode::*;

/// The root of the empty trie.
pub fn empty_root() -> H {
    keccak(&[0x80])
}

pub fn keccak(b: &[u8]) -> H {
    let mut k = Keccak::v256();
    k.update(b);
    let mut o = [0; 32];
    k.finalize(&mut o);
    o
}

fn rlp_len(out: &mut Vec<u8>, base: u8, n: usize) {
    if n < 56 {
        out.push(base + n as u8);
    } else {
        let be = n.to_be_bytes();
        let skip = be.iter().take_while(|b| **b == 0).count();
        out.push(base + 55 + (8 - skip) as u8);
        out.extend_from_slice(&be[skip..]);
    }
}

fn rlp_str(out: &mut Vec<u8>, s: &[u8]) {
    if s.len() == 1 && s[0] < 0x80 {
        out.push(s[0]);
    } else {
        rlp_len(out, 0x80, s.len());
        out.extend_from_slice(s);
    }
}

fn hex_prefix(n: &[u8], leaf: bool) -> Vec<u8> {
    let mut o = Vec::with_capacity(n.len() / 2 + 1);
    let flag = if leaf { 2 } else { 0 };
    let rest = if n.len() % 2 == 1 {
        o.push((flag + 1) << 4 | n[0]);
        &n[1..]
    } else {
        o.push(flag << 4);
        n
    };
    for p in rest.chunks(2) {
        o.push(p[0] << 4 | p[1]);
    }
    o
}

impl RefNode {
    /// RLP of a node that is not a `Hash`.
    fn rlp(&self) -> Vec<u8> {
        let mut body = vec![];
        match self {
            Empty => return vec![0x80],
            Hash(_) => unreachable!("a hash node has no encoding of its own"),
            Branch(ch, v) => {
                for c in ch {
                    c.append_ref(&mut body);
                }
                rlp_str(&mut body, v);
            }
            Ext(n, c) => {
                rlp_str(&mut body, &hex_prefix(n, false));
                c.append_ref(&mut body);
            }
            Leaf(n, v) => {
                rlp_str(&mut body, &hex_prefix(n, true));
                rlp_str(&mut body, v);
            }
        }
        let mut out = Vec::with_capacity(body.len() + 5);
        rlp_len(&mut out, 0xc0, body.len());
        out.extend_from_slice(&body);
        out
    }

    fn append_ref(&self, out: &mut Vec<u8>) {
        match self.hashed() {
            Ok(h) => rlp_str(out, &h),
            Err(raw) => out.extend_from_slice(&raw),
        }
    }

    /// The 32-byte reference used for this node by its parent, or its inlined encoding.
    pub fn hashed(&self) -> Result<H, Vec<u8>> {
        if let Hash(h) = self {
            return Ok(*h);
        }
        let r = self.rlp();
        if r.len() >= 32 {
            Ok(keccak(&r))
        } else {
            Err(r)
        }
    }

    /// Root hash of the trie that starts at this node.
    pub fn root(&self) -> H {
        match self {
            Hash(h) => *h,
            _ => keccak(&self.rlp()),
        }
    }

    pub fn is_empty(&self) -> bool {
        matches!(self, Empty)
    }

    pub fn kind(&self) -> &'static str {
        match self {
            Empty => "Empty",
            Hash(_) => "Hash",
            Branch(..) => "Branch",
            Ext(..) => "Extension",
            Leaf(..) => "Leaf",
        }
    }

    pub fn entries(&self) -> Entries {
        let mut m = Entries::new();
        let mut ok = true;
        self.collect(&mut vec![], &mut m, &mut ok);
        m
    }

    /// Entries, or None if two nodes claim the same path (possible only after damage).
    pub fn entries_checked(&self) -> Option<Entries> {
        let mut m = Entries::new();
        let mut ok = true;
        self.collect(&mut vec![], &mut m, &mut ok);
        ok.then_some(m)
    }

    fn collect(&self, at: &mut Vec<u8>, m: &mut Entries, ok: &mut bool) {
        match self {
            Empty => {}
            Hash(h) => *ok &= m.insert(at.clone(), Ent::H(*h)).is_none(),
            Branch(ch, v) => {
                if !v.is_empty() {
                    *ok &= m.insert(at.clone(), Ent::V(v.clone())).is_none();
                }
                for (i, c) in ch.iter().enumerate() {
                    at.push(i as u8);
                    c.collect(at, m, ok);
                    at.pop();
                }
            }
            Ext(n, c) => {
                at.extend_from_slice(n);
                c.collect(at, m, ok);
                at.truncate(at.len() - n.len());
            }
            Leaf(n, v) => {
                at.extend_from_slice(n);
                *ok &= m.insert(at.clone(), Ent::V(v.clone())).is_none();
                at.truncate(at.len() - n.len());
            }
        }
    }

    pub fn depth(&self) -> usize {
        match self {
            Empty | Hash(_) | Leaf(..) => 1,
            Ext(_, c) => 1 + c.depth(),
            Branch(ch, _) => 1 + ch.iter().map(|c| c.depth()).max().unwrap_or(0),
        }
    }

    pub fn has_hidden(&self) -> bool {
        match self {
            Empty | Leaf(..) => false,
            Hash(_) => true,
            Ext(_, c) => c.has_hidden(),
            Branch(ch, _) => ch.iter().any(|c| c.has_hidden()),
        }
    }

    /// Longest path in nibbles.
    pub fn max_len(&self) -> usize {
        match self {
            Empty | Hash(_) => 0,
            Leaf(n, _) => n.len(),
            Ext(n, c) => n.len() + c.max_len(),
            Branch(ch, _) => ch.iter().map(|c| if c.is_empty() { 0 } else { 1 + c.max_len() }).max().unwrap_or(0),
        }
    }

    /// The node at exactly this path, if a node starts there.
    pub fn node_at(&self, path: &[u8]) -> Option<&RefNode> {
        if path.is_empty() {
            return Some(self);
        }
        match self {
            Branch(ch, _) => ch[path[0] as usize].node_at(&path[1..]),
            Ext(n, c) => path.strip_prefix(&n[..]).and_then(|r| c.node_at(r)),
            _ => None,
        }
    }
}

/// Canonical tree of a set of entries (the yellow paper's c(), extended by hidden parts).
pub fn canonical(e: &Entries) -> Rc<RefNode> {
    let items: Vec<(&[u8], &Ent)> = e.iter().map(|(k, v)| (&k[..], v)).collect();
    build(&items, 0)
}

fn build(items: &[(&[u8], &Ent)], d: usize) -> Rc<RefNode> {
    Rc::new(match items {
        [] => Empty,
        [(k, Ent::V(v))] => Leaf(k[d..].to_vec(), v.clone()),
        [(k, Ent::H(h))] if k.len() == d => Hash(*h),
        [(k, Ent::H(h))] => Ext(k[d..].to_vec(), Rc::new(Hash(*h))),
        _ => {
            let (a, b) = (items[0].0, items[items.len() - 1].0);
            let cp = a[d..].iter().zip(&b[d..]).take_while(|(x, y)| x == y).count();
            if cp > 0 {
                Ext(a[d..d + cp].to_vec(), build(items, d + cp))
            } else {
                let mut rest = items;
                let mut value = vec![];
                if a.len() == d {
                    if let Ent::V(v) = items[0].1 {
                        value = v.clone();
                    }
                    rest = &items[1..];
                }
                let mut ch = Vec::with_capacity(16);
                for nib in 0..16u8 {
                    let n = rest.iter().take_while(|(k, _)| k[d] == nib).count();
                    ch.push(build(&rest[..n], d + 1));
                    rest = &rest[n..];
                }
                Branch(ch, value)
            }
        }
    })
}

/// A set that differs from `e` (no hidden parts) in one detail, chosen by `n`.
pub fn near(e: &Entries, n: u64) -> Option<Entries> {
    let mut out = e.clone();
    let i = (n / 8) as usize % e.len().max(1);
    let (k, v) = e.iter().nth(i)?;
    let move_all = |from: &[u8], to: &[u8]| -> Entries {
        let group = |(k, v): (&Vec<u8>, &Ent)| match k.strip_prefix(from) {
            Some(rest) => ([to, rest].concat(), v.clone()),
            None => (k.clone(), v.clone()),
        };
        e.iter().map(group).collect()
    };
    match n % 8 {
        0 | 1 => {
            if let Ent::V(x) = out.get_mut(k)? {
                let at = (n / 64) as usize % x.len();
                x[at] ^= 1 << (n % 7);
            }
        }
        2 => drop(out.remove(k)),
        3 => {
            let (other, x) = e.iter().nth((i + 1) % e.len())?;
            out.insert(k.clone(), x.clone());
            out.insert(other.clone(), v.clone());
        }
        4 => {
            // Everything below one place moves to the place next to it.
            let l = 1 + (n / 64) as usize % k.len().max(1);
            let mut to = k.get(..l)?.to_vec();
            to[l - 1] ^= 1 << (n % 3);
            out = move_all(&k[..l], &to);
        }
        5 => {
            let (a, b) = (e.keys().next()?, e.keys().next_back()?);
            let cp = a.iter().zip(b).take_while(|(x, y)| x == y).count();
            let mut to = a[..cp].to_vec();
            *to.get_mut((n / 64) as usize % cp.max(1))? ^= 1 + (n % 15) as u8;
            out = move_all(&a[..cp], &to);
        }
        6 => {
            if e.keys().any(|k| k.len() > 63) {
                return None;
            }
            out = move_all(&[], &[0]);
        }
        _ => {
            out.remove(k);
            let cut = k.len().checked_sub(1)?;
            out.insert(k[..cut].to_vec(), v.clone());
        }
    }
    (out != *e && out.len() + 1 >= e.len()).then_some(out)
}

// ---- semantics of the operations on entries -------------------------------------------

/// True if a hidden part covers `k`.
pub fn hidden_at(e: &Entries, k: &[u8]) -> bool {
    (0..=k.len()).any(|n| matches!(e.get(&k[..n]), Some(Ent::H(_))))
}

/// False if the operation has to be refused.
pub fn model_insert(e: &mut Entries, k: &[u8], v: &Ent) -> bool {
    if hidden_at(e, k) {
        return false;
    }
    if let Ent::H(_) = v {
        if e.range(k.to_vec()..).next().is_some_and(|(x, _)| x.starts_with(k)) {
            return false;
        }
    }
    e.insert(k.to_vec(), v.clone());
    true
}

/// None: refused.
pub fn model_delete(e: &mut Entries, k: &[u8]) -> Option<Option<Vec<u8>>> {
    if hidden_at(e, k) {
        return None;
    }
    Some(e.remove(k).map(|v| match v {
        Ent::V(v) => v,
        Ent::H(_) => unreachable!(),
    }))
}

pub fn model_get<'a>(e: &'a Entries, k: &[u8]) -> Option<&'a [u8]> {
    match e.get(k) {
        Some(Ent::V(v)) => Some(v),
        _ => None,
    }
}

/// What a subset for these keys must look like.
pub enum Expected {
    Refused,
    /// A key ends exactly on a hidden part; the documentation leaves this open.
    Either(Rc<RefNode>),
    Tree(Rc<RefNode>),
}

pub fn model_subset(t: &Rc<RefNode>, keys: &[Vec<u8>]) -> Expected {
    let mut either = false;
    for k in keys {
        match lead(t, k) {
            Lead::Into => return Expected::Refused,
            Lead::Onto => either = true,
            Lead::Free => {}
        }
    }
    let ks: Vec<&[u8]> = keys.iter().map(|k| &k[..]).collect();
    let r = reveal(t, &ks);
    if either {
        Expected::Either(r)
    } else {
        Expected::Tree(r)
    }
}

enum Lead {
    Free,
    Onto,
    Into,
}

fn lead(t: &RefNode, k: &[u8]) -> Lead {
    match t {
        Empty | Leaf(..) => Lead::Free,
        Hash(_) if k.is_empty() => Lead::Onto,
        Hash(_) => Lead::Into,
        Branch(..) if k.is_empty() => Lead::Free,
        Branch(ch, _) => lead(&ch[k[0] as usize], &k[1..]),
        Ext(n, c) => match k.strip_prefix(&n[..]) {
            Some(r) => lead(c, r),
            None => Lead::Free,
        },
    }
}

/// `keys` are those that traverse `t`; without any, the node is hidden if it can be.
fn reveal(t: &Rc<RefNode>, keys: &[&[u8]]) -> Rc<RefNode> {
    if keys.is_empty() {
        if let Ok(h) = t.hashed() {
            return Rc::new(Hash(h));
        }
    }
    match &**t {
        Empty | Hash(_) | Leaf(..) => t.clone(),
        Branch(ch, v) => Rc::new(Branch(
            ch.iter()
                .enumerate()
                .map(|(i, c)| {
                    let sub: Vec<&[u8]> =
                        keys.iter().filter(|k| k.first() == Some(&(i as u8))).map(|k| &k[1..]).collect();
                    reveal(c, &sub)
                })
                .collect(),
            v.clone(),
        )),
        Ext(n, c) => {
            let sub: Vec<&[u8]> = keys.iter().filter_map(|k| k.strip_prefix(&n[..])).collect();
            Rc::new(Ext(n.clone(), reveal(c, &sub)))
        }
    }
}

// ---- reading and writing the library's own nodes ---------------------------------------

/// The nibbles of a key, read from its public fields.
pub fn unpack(n: &Nibbles) -> Vec<u8> {
    (0..n.count.min(200)).rev().map(|i| if i >= 128 { 0 } else { (n.packed.byte(i / 2) >> (4 * (i % 2))) & 0xf }).collect()
}

pub fn well_formed(n: &Nibbles) -> bool {
    n.count <= 64 && n.packed.bits() <= 4 * n.count
}

pub fn pack(k: &[u8]) -> Nibbles {
    let mut packed = U512::zero();
    for n in k {
        packed = (packed << 4) | U512::from(*n);
    }
    Nibbles { count: k.len(), packed }
}

/// Copies the structure of a library trie (touches no cache and no lock).
pub fn to_ref<N: PartialTrie>(t: &N) -> Rc<RefNode> {
    let n: &Node<N> = t;
    Rc::new(match n {
        Node::Empty => Empty,
        Node::Hash(h) => Hash(h.0),
        Node::Branch { children, value } => {
            Branch(children.iter().map(|c| to_ref::<N>(c)).collect(), value.clone())
        }
        Node::Extension { nibbles, child } => Ext(unpack(nibbles), to_ref::<N>(child)),
        Node::Leaf { nibbles, value } => Leaf(unpack(nibbles), value.clone()),
    })
}

/// Does the library trie have exactly this structure?
pub fn same<N: PartialTrie>(t: &N, r: &RefNode) -> bool {
    let n: &Node<N> = t;
    match (n, r) {
        (Node::Empty, Empty) => true,
        (Node::Hash(h), Hash(g)) => h.0 == *g,
        (Node::Branch { children, value }, Branch(ch, v)) => {
            value == v && children.iter().zip(ch).all(|(a, b)| same::<N>(a, b))
        }
        (Node::Extension { nibbles, child }, Ext(n, c)) => same_nibs(nibbles, n) && same::<N>(child, c),
        (Node::Leaf { nibbles, value }, Leaf(n, v)) => value == v && same_nibs(nibbles, n),
        _ => false,
    }
}

fn same_nibs(a: &Nibbles, b: &[u8]) -> bool {
    a.count == b.len() && well_formed(a) && unpack(a) == b
}

/// All keys in range and consistent (a damaged file may contain anything).
pub fn all_well_formed<N: PartialTrie>(t: &N, used: usize) -> bool {
    let n: &Node<N> = t;
    match n {
        Node::Empty | Node::Hash(_) => used <= 64,
        Node::Branch { children, .. } => {
            used <= 64
                && children
                    .iter()
                    .all(|c| matches!(&***c as &Node<N>, Node::Empty) || (used < 64 && all_well_formed::<N>(c, used + 1)))
        }
        Node::Extension { nibbles, child } => {
            well_formed(nibbles) && used + nibbles.count <= 64 && all_well_formed::<N>(child, used + nibbles.count)
        }
        Node::Leaf { nibbles, .. } => well_formed(nibbles) && used + nibbles.count <= 64,
    }
}

/// Builds a library trie of this structure that shares nothing with any other trie.
pub fn rebuild<N: PartialTrie>(r: &RefNode) -> N {
    let wrap = |r: &RefNode| Arc::new(Box::new(rebuild::<N>(r)));
    N::new(match r {
        Empty => Node::Empty,
        Hash(h) => Node::Hash(H256(*h)),
        Branch(ch, v) => Node::Branch { children: std::array::from_fn(|i| wrap(&ch[i])), value: v.clone() },
        Ext(n, c) => Node::Extension { nibbles: pack(n), child: wrap(c) },
        Leaf(n, v) => Node::Leaf { nibbles: pack(n), value: v.clone() },
    })
}

/// Nodes below the root of a trie that has at most 64 entries.
pub fn pool_of<N: PartialTrie>(t: &N, r: &Rc<RefNode>, entries: usize) -> Vec<(Rc<RefNode>, Arc<Box<N>>)> {
    fn walk<N: PartialTrie>(n: &Node<N>, r: &RefNode, out: &mut Vec<(Rc<RefNode>, Arc<Box<N>>)>) {
        match (n, r) {
            (Node::Branch { children, .. }, Branch(ch, _)) => {
                for (c, r) in children.iter().zip(ch) {
                    if !r.is_empty() {
                        out.push((r.clone(), c.clone()));
                        walk(c, r, out);
                    }
                }
            }
            (Node::Extension { child, .. }, Ext(_, r)) => {
                out.push((r.clone(), child.clone()));
                walk(child, r, out);
            }
            _ => {}
        }
    }
    let mut out = vec![];
    if entries <= 64 {
        walk(t, r, &mut out);
    }
    out
}

/// Like `rebuild`, but takes nodes from the pool where they fit.
pub fn rebuild_with<N: PartialTrie>(r: &RefNode, pool: &[(Rc<RefNode>, Arc<Box<N>>)]) -> N {
    let wrap = |r: &RefNode| match pool.iter().find(|(p, _)| !r.is_empty() && **p == *r) {
        Some((_, n)) => n.clone(),
        None => Arc::new(Box::new(rebuild_with::<N>(r, pool))),
    };
    N::new(match r {
        Branch(ch, v) => Node::Branch { children: std::array::from_fn(|i| wrap(&ch[i])), value: v.clone() },
        Ext(n, c) => Node::Extension { nibbles: pack(n), child: wrap(c) },
        _ => return rebuild(r),
    })
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

pub fn nibs(b: &[u8]) -> String {
    if b.is_empty() {
        "(empty)".into()
    } else {
        b.iter().map(|x| format!("{x:x}")).collect()
    }
}

/// The reference model against published roots (ethereum/tests, TrieTests/trieanyorder).
pub fn self_check() -> Result<(), String> {
    let vectors: [(&[(&str, &str)], &str); 5] = [
        (&[], "56e81f171bcc55a6ff8345e692c0f86e5b48e01b996cadc001622fb5e363b421"),
        (
            &[("A", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa")],
            "d23786fb4a010da3ce639d66d5e904a11dbc02746d1ce25029e53290cabf28ab",
        ),
        (
            &[("do", "verb"), ("horse", "stallion"), ("doge", "coin"), ("dog", "puppy")],
            "5991bb8c6514148a29db676a14ac506cd2cd5775ace63c30a4fe457715e9ac84",
        ),
        (&[("foo", "bar"), ("food", "bass")], "17beaa1648bafa633cda809c90c04af50fc8aed3cb40d16efbddee6fdf63c4c3"),
        (
            &[("be", "e"), ("dog", "puppy"), ("bed", "d")],
            "3f67c7a47520f79faa29255d2d3c084a7a6df0453116ed7232ff10277a8be68b",
        ),
    ];
    for (kv, want) in vectors {
        let e: Entries = kv
            .iter()
            .map(|(k, v)| (k.bytes().flat_map(|b| [b >> 4, b & 15]).collect(), Ent::V(v.as_bytes().to_vec())))
            .collect();
        let got = hex(&canonical(&e).root());
        if got != want {
            return Err(format!("the reference model gives {got} for {kv:?}, published is {want}"));
        }
    }
    Ok(())
}
