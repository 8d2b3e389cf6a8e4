//! Keys and values in the forms callers use. Each form must mean the same nibbles.

use crate::faults::fired;
use crate::model::{pack, Ent};
use eth_trie_utils::nibbles::{Nibbles, ToNibbles};
use eth_trie_utils::trie_ops::ValOrHash;
use ethereum_types::{H256, U128, U256, U512};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;

pub const N_FORMS: usize = 33;

pub fn mix(seed: u64, b: &[u8], salt: u64) -> u64 {
    let mut h = seed ^ salt.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ 0xcbf2_9ce4_8422_2325;
    for x in b.iter().take(96) {
        h = (h ^ *x as u64).wrapping_mul(0x0100_0000_01b3);
    }
    h ^= h >> 32;
    h = h.wrapping_mul(0xd6e8_feb8_6659_fd93);
    h ^ (h >> 29)
}

fn bytes(k: &[u8]) -> Vec<u8> {
    k.chunks(2).map(|c| c[0] << 4 | c[1]).collect()
}

fn hex(k: &[u8], upper: bool) -> String {
    k.iter().map(|n| std::char::from_digit(*n as u32, 16).unwrap()).map(|c| if upper { c.to_ascii_uppercase() } else { c }).collect()
}

/// Bytes of the number whose digits are `k`.
fn number(k: &[u8]) -> Vec<u8> {
    let mut p = vec![0; k.len() % 2];
    p.extend_from_slice(k);
    bytes(&p)
}

fn compact(k: &[u8], leaf: bool) -> Vec<u8> {
    let mut p = vec![if leaf { 2 } else { 0 } + k.len() as u8 % 2];
    if k.len() % 2 == 0 {
        p.push(0);
    }
    p.extend_from_slice(k);
    bytes(&p)
}

fn low(k: &[u8]) -> u64 {
    k.iter().fold(0, |a, n| a << 4 | *n as u64)
}

fn eq(what: &str, got: &dyn std::fmt::Debug, want: &dyn std::fmt::Debug) -> Result<(), String> {
    let (a, b) = (format!("{got:?}"), format!("{want:?}"));
    if a == b {
        Ok(())
    } else {
        Err(format!("{what} gives {a}, not {b}"))
    }
}

fn refused(what: &str, f: impl FnOnce() -> Nibbles) -> Result<(), String> {
    outside(&format!("{what} of more than 64 nibbles"), f)
}

fn outside<T: std::fmt::Debug>(what: &str, f: impl FnOnce() -> T) -> Result<(), String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Err(_) => Ok(()),
        Ok(n) => Err(format!("{what} is not refused but gives {n:?}")),
    }
}

/// The key `k` in the form numbered `form`, as the library understands it; None if the
/// form cannot express `k`.
fn key_form(k: &[u8], form: usize, r: u64) -> Result<Option<(Nibbles, &'static str)>, String> {
    let n = k.len();
    let cut = (r >> 8) as usize % (n + 1);
    let even = n > 0 && n % 2 == 0;
    let zeros = k.iter().take_while(|x| **x == 0).count();
    // A longer key around this one.
    let room = if r >> 60 & 3 == 0 { 65 } else { 9 };
    let before = (r >> 16) as usize % (65 - n).min(room);
    let after = (r >> 24) as usize % (65 - n - before).min(room);
    let any = |i: usize| r.rotate_right(i as u32 * 4) as u8 & 15;
    let longer: Vec<u8> = (0..before).map(any).chain(k.iter().copied()).chain((0..after).map(|i| any(i + 2))).collect();
    let l = pack(&longer);
    Ok(Some(match form {
        0 => {
            let mut x = Nibbles::default();
            for b in k {
                x.push_nibble_back(*b);
            }
            (x, "push_nibble_back")
        }
        1 => {
            let mut x = Nibbles::default();
            for b in k.iter().rev() {
                x.push_nibble_front(*b);
            }
            (x, "push_nibble_front")
        }
        2 if n > 0 => {
            let s = hex(k, r & 256 != 0);
            let s = if r & 512 != 0 { format!("0x{s}") } else { s };
            (Nibbles::from_str(&s).map_err(|e| format!("from_str({s}) fails: {e}"))?, "from_str")
        }
        3 if even => (Nibbles::from_bytes_be(&bytes(k)).map_err(|e| format!("from_bytes_be fails: {e}"))?, "from_bytes_be"),
        4 if even => {
            let mut b = bytes(k);
            b.reverse();
            (Nibbles::from_bytes_le(&b).map_err(|e| format!("from_bytes_le fails: {e}"))?, "from_bytes_le")
        }
        5 => (pack(&k[..cut]).merge_nibbles(&pack(&k[cut..])), "merge_nibbles"),
        6 if n > 0 => (pack(&k[..n - 1]).merge_nibble(k[n - 1]), "merge_nibble"),
        7 => {
            let mut x = pack(&k[cut..]);
            x.push_nibbles_front(&pack(&k[..cut]));
            (x, "push_nibbles_front")
        }
        8 => (l.get_nibble_range(before..before + n), "get_nibble_range"),
        9 => (l.split_at_idx(before).1.split_at_idx(n).0, "split_at_idx"),
        10 => (l.split_at_idx_postfix(before).split_at_idx_prefix(n), "split_at_idx_prefix / _postfix"),
        11 => (l.truncate_n_nibbles_front(before).truncate_n_nibbles_back(after), "truncate_n_nibbles"),
        12 => {
            let mut x = l;
            let f = x.pop_nibbles_front(before);
            eq("pop_nibbles_front", &f, &pack(&longer[..before]))?;
            let b = x.pop_nibbles_back(after);
            eq("pop_nibbles_back", &b, &pack(&longer[before + n..].iter().rev().copied().collect::<Vec<_>>()))?;
            (x, "what pop_nibbles leaves")
        }
        13 => {
            let mut x = l;
            for i in 0..before {
                eq("pop_next_nibble_front", &x.pop_next_nibble_front(), &longer[i])?;
            }
            for i in 0..after {
                eq("pop_next_nibble_back", &x.pop_next_nibble_back(), &longer[longer.len() - 1 - i])?;
            }
            (x, "what pop_next_nibble leaves")
        }
        14 => {
            let back: Vec<u8> = k.iter().rev().copied().collect();
            (pack(&back).reverse(), "reverse")
        }
        15 if n == 64 => {
            let mut b = [0; 32];
            b.copy_from_slice(&bytes(k));
            (Nibbles::from_h256_be(H256(b)), "from_h256_be")
        }
        16 if n == 64 => {
            let mut b = [0; 32];
            b.copy_from_slice(&bytes(k));
            b.reverse();
            (Nibbles::from_h256_le(H256(b)), "from_h256_le")
        }
        // Integers know no leading zeros.
        17 if zeros == 0 => match (r >> 9) as usize % 6 {
            0 if n <= 2 => ((low(k) as u8).to_nibbles(), "u8"),
            0 | 1 if n <= 4 => ((low(k) as u16).to_nibbles(), "u16"),
            0..=2 if n <= 8 => ((low(k) as u32).to_nibbles(), "u32"),
            0..=3 if n <= 16 => (low(k).to_nibbles(), "u64"),
            0..=4 if n <= 32 => (U128::from_big_endian(&number(k)).to_nibbles(), "U128"),
            _ => (U256::from_big_endian(&number(k)).to_nibbles(), "U256"),
        },
        18 if zeros == 0 => match (r >> 9) % 4 {
            0 if n <= 16 => (Nibbles::from(low(k)), "u64"),
            1 if n <= 32 => (Nibbles::from(U128::from_big_endian(&number(k))), "U128"),
            2 => (Nibbles::from(U256::from_big_endian(&number(k))), "U256"),
            _ => (Nibbles::from(U512::from_big_endian(&number(k))), "U512"),
        },
        // Padded to bytes: at most one leading zero.
        19 if n == 0 || even && (zeros == 0 || zeros == 1) => match (r >> 9) as usize % 7 {
            0 if n <= 2 => ((low(k) as u8).to_nibbles_byte_padded(), "u8, padded"),
            0 | 1 if n <= 4 => ((low(k) as u16).to_nibbles_byte_padded(), "u16, padded"),
            0..=2 if n <= 8 => ((low(k) as u32).to_nibbles_byte_padded(), "u32, padded"),
            0..=3 if n <= 16 => (low(k).to_nibbles_byte_padded(), "u64, padded"),
            0..=4 if n <= 32 => (U128::from_big_endian(&number(k)).to_nibbles_byte_padded(), "U128, padded"),
            0..=5 => (U256::from_big_endian(&number(k)).to_nibbles_byte_padded(), "U256, padded"),
            _ => (U512::from_big_endian(&number(k)).to_nibbles_byte_padded(), "U512, padded"),
        },
        20 if n == 1 => (Nibbles::from_nibble(k[0]), "from_nibble"),
        21 => (Nibbles::from_hex_prefix_encoding(&compact(k, false)).map_err(|e| format!("from_hex_prefix_encoding fails: {e}"))?, "from_hex_prefix_encoding"),
        // Out of the library and back.
        22 => {
            let x = pack(k);
            let c = x.to_hex_prefix_encoding(false);
            eq("to_hex_prefix_encoding", &&c[..], &&compact(k, false)[..])?;
            let c = x.to_hex_prefix_encoding(true);
            eq("to_hex_prefix_encoding of a leaf", &&c[..], &&compact(k, true)[..])?;
            (x, "")
        }
        23 => {
            let x = pack(k);
            eq("{}", &format!("{x}"), &format!("0x{}", hex(k, false)))?;
            eq("{:x}", &format!("{x:x}"), &format!("0x{}", hex(k, false)))?;
            eq("{:X}", &format!("{x:X}"), &format!("0x{}", hex(k, true)))?;
            (x, "")
        }
        24 => {
            let x = pack(k);
            eq("bytes_be", &x.bytes_be(), &number(k))?;
            eq("min_bytes", &x.min_bytes(), &((n + 1) / 2))?;
            eq("is_empty", &x.is_empty(), &(n == 0))?;
            (x, "")
        }
        25 => {
            let x = pack(k);
            for (i, b) in k.iter().enumerate() {
                eq("get_nibble", &x.get_nibble(i), b)?;
            }
            eq("get_next_nibbles", &x.get_next_nibbles(cut), &pack(&k[..cut]))?;
            (x, "")
        }
        26 => {
            // Compared with a near key.
            let x = pack(k);
            let mut o = longer[before..].to_vec();
            if n > 0 && r & 256 != 0 {
                o[cut.min(n - 1)] ^= 1 + (r >> 32) as u8 % 15;
            }
            o.truncate(if r & 512 != 0 { o.len() } else { cut });
            let same = k.iter().zip(&o).take_while(|(a, b)| a == b).count();
            let m = n.min(o.len());
            let y = pack(&o);
            eq("nibbles_are_identical_up_to_smallest_count", &x.nibbles_are_identical_up_to_smallest_count(&y), &(same == m))?;
            eq("find_nibble_idx_that_differs_between_nibbles_different_lengths",
                &Nibbles::find_nibble_idx_that_differs_between_nibbles_different_lengths(&x, &y), &same)?;
            eq("find_nibble_idx_that_differs_between_nibbles_equal_lengths",
                &Nibbles::find_nibble_idx_that_differs_between_nibbles_equal_lengths(&pack(&k[..m]), &pack(&o[..m])), &same)?;
            eq("==", &(x == y), &(k == &o[..]))?;
            (x, "")
        }
        27 => {
            // Longer than keys can be.
            let x = pack(k);
            let rest = pack(&vec![5; 65 - n.max(1)]);
            if n > 0 {
                refused("merge_nibbles", || x.merge_nibbles(&rest))?;
                refused("push_nibbles_front", || {
                    let mut y = x;
                    y.push_nibbles_front(&rest);
                    y
                })?;
            }
            if n == 64 {
                refused("merge_nibble", || x.merge_nibble(1))?;
                refused("push_nibble_back", || {
                    let mut y = x;
                    y.push_nibble_back(1);
                    y
                })?;
                refused("push_nibble_front", || {
                    let mut y = x;
                    y.push_nibble_front(1);
                    y
                })?;
            }
            (x, "")
        }
        28 => {
            // More than there is.
            let x = pack(k);
            let m = n + 1 + (r >> 40) as usize % 70;
            match (r >> 48) % 8 {
                0 => outside(&format!("get_nibble({})", m - 1), || x.get_nibble(m - 1))?,
                1 => outside(&format!("get_nibble_range({cut}..{m})"), || x.get_nibble_range(cut..m))?,
                2 => outside(&format!("get_next_nibbles({m})"), || x.get_next_nibbles(m))?,
                3 => outside(&format!("pop_nibbles_front({m})"), || {
                    let mut y = x;
                    y.pop_nibbles_front(m)
                })?,
                4 => outside(&format!("pop_nibbles_back({m})"), || {
                    let mut y = x;
                    y.pop_nibbles_back(m)
                })?,
                5 => outside(&format!("split_at_idx({m})"), || x.split_at_idx(m))?,
                6 => outside(&format!("split_at_idx_prefix({m})"), || x.split_at_idx_prefix(m))?,
                _ => outside(&format!("split_at_idx_postfix({m})"), || x.split_at_idx_postfix(m))?,
            }
            if n == 0 {
                outside("pop_next_nibble_front of an empty key", || Nibbles::default().pop_next_nibble_front())?;
                outside("pop_next_nibble_back of an empty key", || Nibbles::default().pop_next_nibble_back())?;
            }
            eq("truncate_n_nibbles_front of more than there is", &x.truncate_n_nibbles_front(m), &Nibbles::default())?;
            eq("truncate_n_nibbles_back of more than there is", &x.truncate_n_nibbles_back(m), &Nibbles::default())?;
            (x, "")
        }
        29 => {
            let mut x = l;
            x.truncate_n_nibbles_front_mut(before);
            x.truncate_n_nibbles_back_mut(after);
            (x, "truncate_n_nibbles_mut")
        }
        30 => {
            let x = pack(k);
            eq("try_into_u256", &x.try_into_u256(), &Ok::<_, String>(U256::from_big_endian(&number(k))))?;
            eq("get_num_nibbles_in_key", &Nibbles::get_num_nibbles_in_key(&x.packed), &(n - zeros))?;
            outside("a nibble of more than 4 bits", || match r >> 48 & 3 {
                0 => Nibbles::from_nibble(16 + (r >> 50) as u8 % 240),
                1 if n < 64 => x.merge_nibble(16 + (r >> 50) as u8 % 240),
                2 if n < 64 => {
                    let mut y = x;
                    y.push_nibble_back(16);
                    y
                }
                _ => {
                    let mut y = x.truncate_n_nibbles_back(1);
                    y.push_nibble_front(16);
                    y
                }
            })?;
            (x, "")
        }
        31 => match r >> 48 & 1 {
            0 => (bincode::serialize(&pack(k)).and_then(|b| bincode::deserialize(&b)).map_err(|e| e.to_string())?, "bincode"),
            _ => (serde_json::to_vec(&pack(k)).and_then(|b| serde_json::from_slice(&b)).map_err(|e| e.to_string())?, "JSON"),
        },
        32 => {
            // Cut in two, and put together again.
            let x = pack(k);
            let (a, b) = (&k[..cut], &k[cut..]);
            let mut y = x;
            eq("pop_nibbles_front", &y.pop_nibbles_front(cut), &pack(a))?;
            eq("what pop_nibbles_front leaves", &y, &pack(b))?;
            let mut y = x;
            eq("pop_nibbles_back", &y.pop_nibbles_back(n - cut), &pack(&b.iter().rev().copied().collect::<Vec<_>>()))?;
            eq("what pop_nibbles_back leaves", &y, &pack(a))?;
            eq("truncate_n_nibbles_front", &x.truncate_n_nibbles_front(cut), &pack(b))?;
            eq("truncate_n_nibbles_back", &x.truncate_n_nibbles_back(n - cut), &pack(a))?;
            eq("split_at_idx", &x.split_at_idx(cut), &(pack(a), pack(b)))?;
            eq("split_at_idx_prefix", &x.split_at_idx_prefix(cut), &pack(a))?;
            eq("split_at_idx_postfix", &x.split_at_idx_postfix(cut), &pack(b))?;
            (pack(a).reverse().reverse().merge_nibbles(&y.split_at_idx_postfix(y.count).merge_nibbles(&pack(b))), "cutting and merging")
        }
        _ => return Ok(None),
    }))
}

/// `k` in a form chosen by `r`. If the library gets it wrong, also says how.
pub fn key(k: &[u8], r: u64) -> (Nibbles, usize, Option<String>) {
    let plain = pack(k);
    let first = r as usize % N_FORMS;
    for i in 0..N_FORMS {
        let form = (first + i) % N_FORMS;
        match catch_unwind(AssertUnwindSafe(|| key_form(k, form, r))) {
            Ok(Ok(None)) => continue,
            Ok(Ok(Some((x, what)))) => {
                let bad = (x.count != plain.count || x.packed != plain.packed).then(|| format!("key {} given through {what} becomes {x:?}", hex(k, false)));
                return (x, form, bad);
            }
            Ok(Err(e)) => return (plain, form, Some(format!("key {}: {e}", hex(k, false)))),
            Err(_) => return (plain, form, Some(format!("key {}: form {form} panics: {}", hex(k, false), crate::faults::last_panic()))),
        }
    }
    (plain, 0, None)
}

/// The value in a form chosen by `r`.
pub fn val(v: &Ent, r: u64) -> (ValOrHash, Option<String>) {
    let plain = crate::faults::raw_val(v);
    let x = catch_unwind(AssertUnwindSafe(|| -> ValOrHash {
        match v {
            Ent::H(h) => H256(*h).into(),
            Ent::V(b) => match (b.len(), r % 4) {
                (1, 1..) => b[0].into(),
                (2, 1..) => u16::from_be_bytes([b[0], b[1]]).into(),
                (4, 1..) => u32::from_be_bytes([b[0], b[1], b[2], b[3]]).into(),
                (8, 1..) => {
                    let mut x = [0; 8];
                    x.copy_from_slice(b);
                    u64::from_be_bytes(x).into()
                }
                (16, 1..) => U128::from_big_endian(b).into(),
                (32, 1..) => U256::from_big_endian(b).into(),
                (64, 1..) => U512::from_big_endian(b).into(),
                (_, 0) => (&b[..]).into(),
                _ => b.clone().into(),
            },
        }
    }));
    match x {
        Ok(x) => {
            let bad = (x != plain).then(|| format!("a value of {v:?} becomes {x:?}"));
            (x, bad)
        }
        Err(_) => (plain, Some(format!("the conversion of value {v:?} panics: {}", crate::faults::last_panic()))),
    }
}

// ---- keys that arrive as bytes or text, damaged on the way --------------------------------

pub const N_WIRES: usize = 5;

/// What the receiver of a damaged encoding must get.
enum Want {
    Key(Vec<u8>),
    Refused,
    /// Refused, or exactly these nibbles.
    Either(Vec<u8>),
}

fn limited(k: Vec<u8>) -> Want {
    if k.len() > 64 {
        Want::Either(k)
    } else {
        Want::Key(k)
    }
}

fn nibbles_of(b: &[u8]) -> Vec<u8> {
    b.iter().flat_map(|x| [x >> 4, x & 15]).collect()
}

fn decode(wire: usize, b: &[u8]) -> Want {
    match wire {
        0 | 1 => {
            if b.is_empty() || b.len() > 33 || b[0] >> 4 > 3 {
                return Want::Refused;
            }
            let n = nibbles_of(b);
            let odd = n[0] & 1 == 1;
            let mut k = n[if odd { 1 } else { 2 }..].to_vec();
            // The decoder marks leaves by a trailing 0x10.
            if n[0] & 2 != 0 {
                k.extend([1, 0]);
            }
            if !odd && n[1] != 0 {
                Want::Either(k)
            } else {
                limited(k)
            }
        }
        2 | 3 => match b.len() {
            0 => Want::Refused,
            1..=33 if wire == 2 => limited(nibbles_of(b)),
            1..=33 => limited(nibbles_of(&b.iter().rev().copied().collect::<Vec<_>>())),
            _ => Want::Refused,
        },
        _ => {
            let s = String::from_utf8_lossy(b);
            let s = s.strip_prefix("0x").unwrap_or(&s);
            let k: Option<Vec<u8>> = s.chars().map(|c| c.to_digit(16).map(|d| d as u8)).collect();
            match k {
                Some(k) if k.is_empty() => Want::Either(k),
                Some(k) if k.len() <= 128 => limited(k),
                _ => Want::Refused,
            }
        }
    }
}

fn damage(b: &mut Vec<u8>, r: u64) -> Option<usize> {
    let at = |s: u32, n: usize| (r >> s) as usize % n;
    Some(match r % 8 {
        0 | 1 if !b.is_empty() => {
            b.truncate(if r & 256 != 0 { 0 } else { at(9, b.len()) });
            fired::CUT
        }
        2 | 3 | 4 if !b.is_empty() => {
            // Often where the flags are.
            let i = if r & 256 != 0 { 0 } else { at(9, b.len()) };
            let bit = 1 << at(24, 8);
            b[i] = if r & 512 != 0 { b[i] ^ bit } else { (r >> 40) as u8 };
            fired::ALTERED
        }
        5 => {
            let n = 1 + if r & 256 != 0 { at(9, 3) } else { at(9, 70) };
            for i in 0..n {
                b.push((r >> (i % 40)) as u8);
            }
            fired::PADDED
        }
        6 => {
            let c = b.clone();
            b.extend(c);
            fired::JOINED
        }
        _ => return None,
    })
}

/// The key `k` is sent and arrives damaged in a way chosen by `r`. Gives the encoding used,
/// the fault, and what the library makes of it that it should not.
pub fn receive(k: &[u8], r: u64) -> (usize, Option<usize>, Option<String>) {
    let wire = (r >> 56) as usize % N_WIRES;
    let mut b = match wire {
        0 => compact(k, false),
        1 => compact(k, true),
        2 => number(k),
        3 => number(k).into_iter().rev().collect(),
        _ => format!("{}{}", if r & 1 << 50 != 0 { "0x" } else { "" }, hex(k, r & 1 << 51 != 0)).into_bytes(),
    };
    let fault = damage(&mut b, r);
    let name = ["from_hex_prefix_encoding", "from_hex_prefix_encoding", "from_bytes_be", "from_bytes_le", "from_str"][wire];
    let got = catch_unwind(AssertUnwindSafe(|| match wire {
        0 | 1 => Nibbles::from_hex_prefix_encoding(&b).map_err(|e| e.to_string()),
        2 => Nibbles::from_bytes_be(&b).map_err(|e| e.to_string()),
        3 => Nibbles::from_bytes_le(&b).map_err(|e| e.to_string()),
        _ => Nibbles::from_str(&String::from_utf8_lossy(&b)).map_err(|e| e.to_string()),
    }));
    let is = |x: &Nibbles, k: &[u8]| x.count == k.len() && x.packed == U512::from_big_endian(&number(k));
    let bad = match (&got, decode(wire, &b)) {
        (Err(_), _) => Some(format!("panics: {}", crate::faults::last_panic())),
        (Ok(Ok(x)), Want::Refused) => Some(format!("gives {x:?} instead of an error")),
        (Ok(Err(e)), Want::Key(k)) => Some(format!("fails ({e}); it is {}", hex(&k, false))),
        (Ok(Ok(x)), Want::Key(k) | Want::Either(k)) if !is(x, &k) => Some(format!("gives {x:?} instead of {}", hex(&k, false))),
        _ => None,
    };
    (wire, fault, bad.map(|m| format!("{name} of the received {} {m}", crate::model::hex(&b))))
}
