#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
NA = {}
NOTE = {
 "C01": "Seeded exploration of interleavings of up to 5 simulated threads, with injected panics, kills and stalls; every hash is compared with an independent RLP/keccak computation over the visible nodes. Held = no mismatch on the explored runs.",
 "C02": "Seeded exploration; every handle has a model snapshot which is audited after every operation of another handle that could reach it and at the end of the run.",
 "C03": "Seeded exploration of operation histories with faults; every answer is compared with a BTreeMap model.",
 "C04": "Seeded exploration; at every hash and at the end the root and the node structure are compared with the canonical tree built from the model's entries.",
 "C05": "Seeded exploration; every subset is compared node by node with the subset the model builds.",
 "C06": "Seeded exploration of a simulated producer, workers and a lossy network with crashes and restarts; every worker answer is compared with the model of the full trie.",
 "C07": "Seeded exploration; every member of a batch is compared with a separately made subset and with the model.",
 "C08": "Seeded exploration with a panic or kill injected at a random scheduling point of the operation; the state afterwards is compared with the allowed states.",
 "C09": "Seeded exploration of reader/writer faults on bincode, JSON and CBOR streams; torn files and altered bytes.",
 "C10": "Seeded exploration with simulated task-fair locks; deadlock and step-bound exhaustion are violations.",
 "C11": "Seeded exploration; each read-only answer is compared with the answer on an untouched copy.",
 "C12": "Seeded exploration; iterators are advanced piecewise between changes through other handles.",
 "C19": "Seeded exploration; hash computations are counted per call (simulated keccak-hash) and compared with the number of nodes no earlier hash() covered; node identity is compared before and after updates and at the end.",
 "C13": "Seeded exploration; each reported point is checked against the two tries' nodes.",
 "C14": "Seeded exploration; every key and value an operation receives is given in a form chosen by the seed (32 kinds), and what the library makes of it is compared with the nibble list or bytes it stands for.",
 "C15": "Seeded exploration; every key an operation uses is first received through one of five encodings with injected damage and sent again until it arrives whole; each decoding is compared with an own decoder.",
 "C17": "Seeded exploration; the printed numbers are compared with a count over the visible nodes.",
 "C18": "Seeded exploration; the printed path is compared with the nodes an own lookup over the visible nodes passes.",
}
m = {"version": 1,
 "setup_cmd": "bash /verif/bin/build.sh",
 "checks": [], "not_applicable": [],
 "notes": "No hooks in /repo: the seams are patched parking_lot and keccak-hash crates, the log facade, caller-supplied iterators/conversions and serde streams. Replay a violation with: bash /verif/bin/replay.sh <file>."}
for p in props:
    i = p["id"]
    if i in NA:
        m["not_applicable"].append({"property": i, "reason": NA[i]})
    else:
        m["checks"].append({"property": i, "quick_cmd": f"bash /verif/bin/check.sh {i}", "thorough_cmd": f"bash /verif/bin/check.sh {i}",
          "evidence_file": f"evidence/{i}.json",
          "technique": "deterministic simulation with fault injection",
          "level": "exploration", "level_note": NOTE[i]})
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
