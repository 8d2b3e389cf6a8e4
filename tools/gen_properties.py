#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(zip(("name","meaning","where"), s)) for s in state],
        "mechanism": [dict(zip(("name","where"), m)) for m in mech],
        "observe_at": list(observe), "hook_needed": hook}})
PT, OPS, HASH, SUB = "src/partial_trie.rs", "src/trie_ops.rs", "src/trie_hashing.rs", "src/trie_subsets.rs"
DIFF = "src/debug_tools/diff.rs"
CACHE = ("HashedPartialTrie::hash", "lazily filled hash cache; the lock cell is shared by every clone of a node", PT)

p("C01", "A trie's hash always matches its current content",
  "Whenever hash() on any trie returns, the value is the Merkle root of exactly the nodes reachable from that trie at that moment, whichever threads hashed, cloned, mutated, subset, serialized or edited in place any trie sharing nodes with it, before or at the same time. The hash-caching trie type and the non-caching one therefore always report the same hash for the same content.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of hashing, cloning, mutation, in-place edits, grafting and sub-trie extraction by several threads on tries that share nodes, including operations cut short by a panic",
  "The tests hash one trie in one thread right after building it; no test clones, edits or extracts a trie whose caches are filled, and none runs two threads.",
  [PT, HASH], [("cache fill in hash_intern, cache invalidation in insert/extend/delete", PT), ("RLP/keccak node encoding", HASH)],
  [CACHE], ["PartialTrie::hash", "public Node structure"])
p("C02", "Clones, sub-tries and iterators are isolated snapshots",
  "A clone, a sub-trie taken out of a trie, a trie placed into another one and a live iterator keep denoting the content they had when they were made. No change made through any other handle, by any thread and in any interleaving, changes the entries, the equality or the hash observed through them.",
  ["schedules", "histories"],
  "every interleaving of mutations through one handle with observations through other handles that share nodes with it",
  "One test (held_trie_cow_references...) checks contents of old roots of the non-caching trie after single-threaded inserts; hashes of snapshots, deletes, in-place edits, sub-trie handles and concurrent observers are never checked.",
  [PT, OPS], [("copy-on-write through Arc'd children", OPS), ("Clone for HashedPartialTrie", PT)], [CACHE],
  ["get, items, ==, hash through the untouched handle"])
p("C03", "A trie behaves as a map over every history",
  "After any sequence of inserts, bulk inserts and deletes, including refused ones, looking up a key returns the value last inserted under exactly that key and not deleted since, or nothing; a delete returns exactly that value and removes only that entry. This holds for keys of any length from 0 to 64 nibbles, also when one key is a prefix of another, and for all non-empty values.",
  ["histories", "inputs", "fault_sequences"],
  "every history of insert / extend / delete / get (successful, refused or interrupted) on private, shared and lock-guarded tries, over arbitrary key sets and non-empty values",
  "The tests insert or delete large random key sets once; they do not interleave kinds of operations, never look up absent neighbours (prefixes and extensions) of present keys and never delete next to a branch value.",
  [OPS], [("insert_into_trie_rec / delete_intern / trie_get_intern", OPS), ("Nibbles slicing", "src/nibbles.rs")], (), ["insert, extend, delete, get"])
p("C04", "The root depends only on content and is Ethereum's root",
  "For a trie without hidden parts, the root hash equals the Merkle-Patricia root the Ethereum yellow paper assigns to its key/value set. Hence any two histories (different orders, overwrites, deletes, refused or interrupted operations, save and restore) that reach the same set give equal tries with equal hashes, and tries whose sets differ in any detail compare unequal.",
  ["histories", "schedules", "fault_sequences", "inputs"],
  "every pair of histories that reach the same key/value set, in any interleaving with concurrent hashing of tries sharing nodes",
  "The tests compare roots against another library only while inserting, and once while deleting from a fixed random set, without interleaving the two and without fault or concurrency.",
  [OPS, HASH, PT], [("branch/extension/leaf split and collapse", OPS), ("rlp_encode_and_hash_node", HASH)], [CACHE], ["PartialTrie::hash", "=="])
p("C05", "A subset keeps the root hash and answers all its keys",
  "A subset made from any trie and any keys has the base trie's root hash, answers a lookup of each of these keys, present or absent, as the base does, and replaces everything else by hash nodes as high up as possible. Only a key that leads into a part the base itself hides is refused, with an error; the base is unchanged and concurrent use of it by other threads makes no difference.",
  ["schedules", "histories", "inputs"],
  "every base trie (full or itself partial, any cache state, concurrently hashed), every set of keys present or absent",
  "Tests take subsets of a handful of tries with fixed-length present keys in one thread; absent keys, keys shorter or longer than stored ones, subsets of subsets and warm or concurrently filled caches are not reached.",
  [SUB, PT, HASH], [("mark_nodes_that_are_needed / create_partial_trie_subset_from_tracked_trie", SUB)],
  [("TrackedNodeInfo::touched", "node was traversed by a requested key", SUB), CACHE], ["create_trie_subset", "hash, get on the subset"])
p("C06", "A shipped partial trie evolves exactly like the full trie",
  "A subset that carries the keys an update sequence touches (and the neighbours its deletions merge with), serialized and shipped to another process, yields for every lookup, insert and delete of that sequence the same result and after it the same root as the full trie, whatever losses, duplicates, reorderings, alterations, crashes and restarts happen on the way. An update that reaches a hidden part is refused and never silently accepted.",
  ["histories", "fault_sequences", "crash_points", "schedules"],
  "every update sequence, every network fault sequence between producer and consumers, every crash point of a consumer",
  "No test applies an update to a subset, and none serializes a trie.",
  [SUB, OPS, HASH, PT], [("Hash nodes stand for what they replace", HASH), ("refusal on Hash traversal", OPS)], [CACHE],
  ["create_trie_subsets, serde, insert/delete/get/hash on the subset"])
p("C07", "Subsets made in one batch are independent of each other",
  "Each trie returned by a batch subset request is identical to the one a separate request for its keys alone would return. Its content does not depend on the keys, number or order of the other requests of the batch, on refused or interrupted earlier requests, nor on threads working on the same base.",
  ["histories", "inputs", "schedules"],
  "every base trie and every sequence of key groups, including empty groups, repeated groups and groups of absent keys",
  "The batch tests only assert that requested keys are included and that the root hash is kept; leftovers of one request in the next satisfy both.",
  [SUB], [("reset_tracked_trie_state between requests", SUB)], [("TrackedNodeInfo::touched", "survives from one request to the next", SUB)], ["create_trie_subsets vs create_trie_subset"])
p("C08", "A failed operation leaves a coherent, usable trie",
  "If an operation panics midway, because it reached a hidden part or because a caller-supplied iterator, conversion or logger panicked, the trie then holds either the state before or the state after that operation (for a bulk insert: the state before plus a leading part of the entries). Its hash matches that content, no lock stays held, every other handle is unaffected, and it works normally from then on.",
  ["fault_sequences", "crash_points", "histories"],
  "every panic point inside every operation of every history",
  "No test resumes after a panic; should_panic tests end there.",
  [OPS, PT], [("build the new node path first, assign the root last", OPS), ("cache invalidation around mutation", PT)], [CACHE], ["any operation after catch_unwind"])
p("C09", "Stored tries survive I/O faults faithfully",
  "A trie serialized through a writer that reported success and read back through short, split and interrupted transfers equals the original, has the same hash and behaves the same afterwards, even if other threads were hashing it while it was written. A write that failed or was cut short never reads back as a trie, and when stored bytes were altered, a trie that still loads reports the hash of what was actually loaded.",
  ["fault_sequences", "crash_points", "schedules", "inputs"],
  "every split of the byte stream, every I/O error, crash, truncation or byte alteration point, every interleaving with concurrent hashing",
  "Serialization has no test at all.",
  [PT, "src/nibbles.rs"], [("serde derives of Node, StandardTrie, HashedPartialTrie, Nibbles", PT)], [CACHE], ["serde::Serialize / Deserialize through a reader or writer"])
p("C10", "Concurrent use always makes progress",
  "Any number of threads hashing, comparing, formatting, serializing, subsetting, cloning and mutating tries that share nodes never block each other forever: once no thread is stalled, every started operation completes within a bounded number of scheduling steps. This also holds when caller-supplied iterators and conversions use other handles of the same trie during the operation, and after operations that panicked.",
  ["schedules", "fault_sequences"],
  "every interleaving of lock acquisitions of up to six threads on tries sharing nodes, with stalled and panicking threads",
  "All tests are single-threaded, so no lock is ever contended.",
  [PT], [("locks are released before any other lock is taken or user code is called", PT)], [CACHE], ["completion of every call"])
p("C11", "Read-only operations disturb nobody",
  "Lookups, hashing, iteration, comparison, formatting, statistics, path queries, diffing, subset creation and serialization never change what any handle contains, equals or hashes to. Two tries compare equal exactly when all their nodes are equal, hidden parts by their hash. Run by many threads on the same trie in any interleaving, each gives the answer it gives when run alone on an untouched copy.",
  ["schedules", "histories"],
  "every interleaving of read-only operations of several threads on the same tries, from every state of the hash caches",
  "Tests call each read-only operation once, alone, mostly on freshly built tries.",
  [PT, OPS, SUB, "src/debug_tools/"], [("&self operations touch only the hash cache", PT)], [CACHE], ["all &self operations"])
p("C12", "Iteration yields exactly the entries of one moment",
  "The iterators over items, keys and values yield, in one and the same order, every entry present when they were created exactly once under its full key, values as well as hidden parts, and nothing else. It makes no difference how the consumption is interleaved with other iterators and with changes through other handles.",
  ["histories", "schedules", "inputs"],
  "every trie a history can produce (also partial ones, branch values, nested extensions), every interleaving of iterator steps with changes through other handles",
  "The tests iterate freshly built tries to the end, and compare sets only.",
  [OPS], [("PartialTrieIter stack and current key", OPS)], [("curr_key_after_last_branch", "key prefix kept across next() calls", OPS)], ["items, keys, values"])
p("C13", "A trie diff is never wrong about whether and where",
  "Diffing any two tries terminates normally and reports no difference exactly when their root hashes are equal. A reported difference names a position at which both tries have a node (possibly an empty one) and these two nodes really differ, gives the path and depth of that position and describes each side's node there correctly; clones, filled caches and concurrent hashing make no difference.",
  ["histories", "schedules", "inputs"],
  "every pair of tries reached by histories that share a past (clones diverged by updates, subsets, restored copies), in every cache state",
  "One test diffs two single-leaf tries; the others are ignored todo!() stubs.",
  [DIFF], [("find_latest_diff_point_between_tries_rec", DIFF)], [CACHE], ["create_diff_between_tries"])
p("C19", "Work and memory follow the change, not the size",
  "Once a caching trie has been hashed, hashing it again, or any clone, sub-trie or updated version of it, by whichever thread, computes only hashes of nodes that are new since then: a few per changed path, however large the trie is. An insert or delete shares every node off the changed path with the previous version, and nodes are released when the last trie that contains them is gone, also after operations that failed midway.",
  ["histories", "schedules", "fault_sequences"],
  "every history of hashes, clones, updates, edits and failures over tries sharing nodes, in every interleaving of several threads",
  "No test counts hash computations or looks at node identity; a cache that is never filled, never found or dropped too early passes all of them.",
  [PT, OPS], [("hash_intern fills the cache that every clone of the node shares", PT), ("copy-on-write through Arc'd children", OPS)], [CACHE],
  ["number of keccak computations during hash()", "identity of the Arc'd children in the public Node structure"])
p("C14", "Keys and values mean the same in every form",
  "A key given as an integer, byte string, hash, hex text or hex-prefix encoding, built nibble by nibble, joined from parts or cut out of a longer key denotes exactly its nibble sequence, leading zeros included wherever the form carries them; integer values are stored as the big-endian bytes of their type. So an entry stored by one user under a key in one form is found, replaced and deleted by every other user in any other form, keys print, encode, serialize and convert back as their nibbles, a combination longer than 64 nibbles is refused and never silently shortened, and a request that reaches outside a key (an index, range, split or number of nibbles beyond its end) is refused where the method documents that it panics, also in builds without overflow checks.",
  ["inputs", "histories", "schedules"],
  "every key of 0 to 64 nibbles in every form, every integer type as value, used from several threads on the same tries",
  "Unit tests try each conversion on a few short keys; the limits (64 nibbles, odd lengths, all zeros) and the value conversions are not tried, and no test stores in one form and reads in another.",
  ["src/nibbles.rs", OPS], [("packed U512 representation with a separate count", "src/nibbles.rs"), ("From<..> for ValOrHash", OPS)], (),
  ["Nibbles and ValOrHash as the trie operations receive them"])
p("C15", "Damaged keys are rejected or read as what they say",
  "A key received from elsewhere as a hex-prefix encoding, a byte string or hex text that was cut, altered, lengthened or run together with another on the way gives either an error or exactly the nibbles that the received bytes denote (a leaf's hex-prefix encoding: followed by the terminator 0x10); decoding never panics and never yields a shortened or otherwise different key. Empty encodings and byte strings, unknown flags, characters that are not hex digits, and inputs too long for a key (more than 33 bytes, more than 128 digits) are errors. Left open: whether non-zero padding in an even hex-prefix encoding and keys of 65 or more nibbles that still fit are errors, and whether empty text is.",
  ["inputs", "faults", "histories", "schedules"], "every key, encoding and damage, in several threads that use the keys on shared tries", "Unit tests decode a few well-formed keys and three malformed ones.", ["src/nibbles.rs"], [("from_hex_prefix_encoding", "src/nibbles.rs"), ("from_bytes", "src/nibbles.rs"), ("FromStr for Nibbles", "src/nibbles.rs")])
p("C17", "Trie statistics count the nodes that are there",
  "The node counts per kind, the greatest depth and the average depths reported for a trie are those of its actual nodes, after any history and for tries that contain hidden or shared parts; the shares given are those of the counts, and comparing the statistics of two tries reports both sides' numbers and their ratio. Named statistics carry their name.",
  ["histories", "schedules", "inputs"],
  "every trie reached by histories of updates, in-place edits, subsets and restores, also while other threads use tries sharing its nodes",
  "Tests sample three random tries and a handmade one, never look at the depths (todo!() stubs), and never at a comparison.",
  ["src/debug_tools/stats.rs"], [("get_trie_stats_rec", "src/debug_tools/stats.rs")], (), ["Display of TrieStats and TrieComparison"])
p("C18", "Path queries describe the lookup path",
  "A path query for any key in any trie terminates normally, lists exactly the nodes a lookup of that key visits, with their kinds, key pieces, values, hashes and children as far as the query's options (or the documented defaults) ask for them, names the queried key, and reports the key as found exactly when the lookup finds a value; whether a key that leads to a hidden part counts as found is left open.",
  ["histories", "schedules", "inputs"],
  "every trie reached by histories of updates, in-place edits and subsets, every key present or absent, also while other threads use tries sharing its nodes",
  "Not tested.", ["src/debug_tools/query.rs", "src/debug_tools/common.rs"], [("get_path_from_query_rec", "src/debug_tools/query.rs")], (), ["Display of DebugQueryOutput"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
