//! Running many seeds, reporting, replaying.
//!
//! `check` supervises: it starts the simulation in worker processes, so that a crash or hang
//! of the code under test is itself an observation, and so that static state of the code
//! under test is never shared by two simulations. Worker k of n does every n-th group of
//! runs, in order, on one OS thread; every run depends on (seed, property, index) only.
//!
//! The first two thirds of the runs are done by a build with overflow checks and debug
//! assertions, as tests are, the others by one without, as programs are.

use crate::exec::{run_plan, RunResult, Viol};
use crate::faults::{self, FIRED_NAMES, N_FIRED};
use crate::plan::{generate, Plan, SchedSpec};
use crate::shrink::{run_fresh, Shrinker};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simrt::mix;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

const CHUNK: u64 = 32;
/// A run that takes this long in real time hangs (normal runs take milliseconds).
fn hang_limit() -> Duration {
    let s = std::env::var("VERIF_HANG_S").ok().and_then(|x| x.parse().ok());
    Duration::from_secs(s.unwrap_or(30))
}

pub fn verif() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| "/verif".into())
}

fn base_seed() -> u64 {
    let s = std::env::var("VERIF_SEED").unwrap_or_default();
    s.trim().parse::<u64>().or_else(|_| s.trim().parse::<i64>().map(|x| x as u64)).unwrap_or(1)
}

pub fn run_seed(prop: &str, idx: u64) -> u64 {
    let p = prop.bytes().fold(0u64, |a, b| mix(a ^ b as u64));
    mix(mix(mix(base_seed()) ^ p) ^ idx)
}

fn workers() -> usize {
    std::env::var("VERIF_WORKERS")
        .ok()
        .and_then(|x| x.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()))
        .clamp(1, 64)
}

/// (runs, cap in seconds of simulation)
fn budget(prop: &str, tier: &str) -> (u64, u64) {
    // About 35 s of simulation on 8 cores each.
    let quick: u64 = match prop {
        "C01" | "C02" | "C03" | "C08" | "C11" => 150_000,
        "C04" | "C06" => 110_000,
        "C07" => 140_000,
        "C10" => 240_000,
        "C13" => 70_000,
        "C19" => 120_000,
        _ => 200_000,
    };
    let scale = std::env::var("VERIF_SCALE").ok().and_then(|x| x.parse::<f64>().ok()).unwrap_or(1.0);
    let (n, cap) = if tier == "thorough" { (quick * 9, 540) } else { (quick, 150) };
    ((n as f64 * scale) as u64, cap)
}

/// Properties that promise that the calls return normally.
fn promises_return(prop: &str) -> bool {
    ["C03", "C05", "C06", "C07", "C08", "C10", "C11", "C12", "C13", "C14", "C15", "C17", "C18"].contains(&prop)
}

#[derive(Default, Serialize, Deserialize)]
struct Summary {
    runs: u64,
    #[serde(default)]
    plain_runs: u64,
    steps: u64,
    max_steps: u64,
    cut: u64,
    switches: u64,
    virtual_us: u64,
    blocked: u64,
    multi_task_runs: u64,
    runs_with_fault: u64,
    nontrivial: u64,
    distinct_nontrivial: u64,
    distinct_schedules: u64,
    fired: Vec<u64>,
    oracles: BTreeMap<String, u64>,
    ops: BTreeMap<String, u64>,
    rechecked: u64,
    mismatched: u64,
    errors: Vec<String>,
    samples: Vec<Value>,
    viol: Option<(u64, String, String)>,
    capped: bool,
    wall_s: f64,
}

#[derive(Default)]
struct Acc {
    s: Summary,
    fps: HashSet<u64>,
    traces: HashSet<u64>,
}

impl Acc {
    fn add(&mut self, idx: u64, plan: &Plan, r: &RunResult, fired: &[u64; N_FIRED]) {
        let s = &mut self.s;
        s.runs += 1;
        s.steps += r.steps;
        s.max_steps = s.max_steps.max(r.steps);
        s.switches += r.switches;
        s.cut += (r.outcome == simrt::Outcome::StepLimit) as u64;
        s.virtual_us += r.virtual_us;
        s.blocked += r.blocked;
        s.multi_task_runs += (r.tasks > 1) as u64;
        s.fired.resize(N_FIRED, 0);
        for (a, b) in s.fired.iter_mut().zip(fired) {
            *a += b;
        }
        s.runs_with_fault += fired.iter().any(|x| *x > 0) as u64;
        for (k, v) in &r.counters.oracles {
            *s.oracles.entry(k.to_string()).or_insert(0) += v;
        }
        for (k, v) in &r.counters.ops {
            *s.ops.entry(k.to_string()).or_insert(0) += v;
        }
        self.traces.insert(r.trace);
        if r.nontrivial {
            s.nontrivial += 1;
            self.fps.insert(r.fp);
            if s.samples.len() < 2 && r.viol.is_none() && size(plan) < 30 {
                s.samples.push(json!({
                    "run": idx,
                    "seed": run_seed(&plan.prop, idx),
                    "plan": plan,
                    "steps": r.steps,
                    "switches": r.switches,
                    "oracle_evaluations": r.counters.oracles.values().sum::<u64>(),
                    "fingerprint": format!("{:016x}", r.fp),
                }));
            }
        }
        if let Some(e) = &r.error {
            if s.errors.len() < 5 {
                s.errors.push(format!("run {idx}: {e}"));
            }
        }
    }

    fn merge(&mut self, o: Acc) {
        let (s, t) = (&mut self.s, o.s);
        s.runs += t.runs;
        s.steps += t.steps;
        s.max_steps = s.max_steps.max(t.max_steps);
        s.switches += t.switches;
        s.cut += t.cut;
        s.virtual_us += t.virtual_us;
        s.blocked += t.blocked;
        s.multi_task_runs += t.multi_task_runs;
        s.runs_with_fault += t.runs_with_fault;
        s.nontrivial += t.nontrivial;
        s.fired.resize(N_FIRED, 0);
        for (a, b) in s.fired.iter_mut().zip(&t.fired) {
            *a += b;
        }
        for (k, v) in t.oracles {
            *s.oracles.entry(k).or_insert(0) += v;
        }
        for (k, v) in t.ops {
            *s.ops.entry(k).or_insert(0) += v;
        }
        s.rechecked += t.rechecked;
        s.mismatched += t.mismatched;
        s.errors.extend(t.errors);
        s.samples.extend(t.samples);
        self.fps.extend(o.fps);
        self.traces.extend(o.traces);
    }
}

fn size(p: &Plan) -> usize {
    p.pipe.as_ref().map_or_else(|| p.size(), |x| x.size())
}

// ---- worker process ------------------------------------------------------------------------

/// Carries out run `i`; every 61st twice, to see that it is repeatable.
fn do_run(prop: &str, i: u64, acc: &mut Acc) -> (Option<Viol>, bool) {
    let plan = generate(prop, run_seed(prop, i));
    let r = run_plan(&plan);
    let fired = faults::take_fired();
    acc.add(i, &plan, &r, &fired);
    let mut poisoned = r.poisoned;
    if i % 61 == 0 && !poisoned {
        let r2 = run_plan(&plan);
        faults::take_fired();
        poisoned |= r2.poisoned;
        acc.s.rechecked += 1;
        if r2.fp != r.fp || r2.viol != r.viol || r2.choices != r.choices {
            acc.s.mismatched += 1;
        }
    }
    (r.viol, poisoned)
}

/// A part of the runs of a check.
#[derive(Clone, Copy)]
pub struct Part {
    pub from: u64,
    pub to: u64,
    /// In seconds of simulation.
    pub cap: u64,
    pub coarse: bool,
}

/// The runs of worker k of n. Parts begin at multiples of CHUNK.
fn runs_of(k: u64, n: u64, from: u64, to: u64) -> impl Iterator<Item = u64> {
    (from + k * CHUNK..).step_by((n * CHUNK) as usize).take_while(move |a| *a < to).flat_map(move |a| a..(a + CHUNK).min(to))
}

/// Calls `f` with each element on an OS thread that is replaced when `f` returns Some(true),
/// until it returns None.
fn on_threads<I: Iterator<Item = u64> + Send>(mut it: I, f: &mut (dyn FnMut(u64) -> Option<bool> + Send)) {
    loop {
        let again = std::thread::scope(|s| {
            let body = || {
                faults::set_worker(true);
                while let Some(i) = it.next() {
                    match f(i) {
                        None => return false,
                        Some(true) => return true,
                        Some(false) => {}
                    }
                }
                false
            };
            let t = std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, body);
            t.expect("cannot start a thread").join().expect("the runner itself panicked")
        });
        if !again {
            return;
        }
    }
}

/// Worker k of n; leaves its results in `dir`. Exit 0 unless something is wrong with the
/// runner itself.
pub fn work(prop: &str, part: Part, dir: &str, k: u64, n: u64) -> i32 {
    let start = Instant::now();
    let dir = Path::new(dir);
    // Slot k of "progress": the run being done, plus one; of "best": a violating run, plus one.
    let open = |f: &str| fs::OpenOptions::new().read(true).write(true).open(dir.join(f)).expect("cannot open a shared file");
    let (progress, best) = (open("progress"), open("best"));
    let stop_at = || {
        let mut b = vec![0u8; 8 * n as usize];
        best.read_exact_at(&mut b, 0).expect("cannot read a shared file");
        b.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).filter(|x| *x > 0).min().map_or(u64::MAX, |x| x - 1)
    };
    let current: Mutex<Option<(u64, Instant)>> = Mutex::new(None);
    let finished = AtomicBool::new(false);
    let mut acc = Acc::default();
    std::thread::scope(|sc| {
        let (current, finished) = (&current, &finished);
        sc.spawn(move || {
            while !finished.load(SeqCst) {
                std::thread::sleep(Duration::from_millis(50));
                if let Some((i, t)) = *current.lock().unwrap() {
                    if t.elapsed() > hang_limit() {
                        let _ = fs::write(dir.join("hang"), i.to_string());
                        // The thread cannot be stopped; the process can.
                        std::process::exit(77);
                    }
                }
            }
        });
        let slot = 8 * k;
        on_threads(runs_of(k, n, part.from, part.to), &mut |i| {
            if i % CHUNK == 0 {
                if i > stop_at() {
                    return None;
                }
                if start.elapsed().as_secs() >= part.cap {
                    acc.s.capped = true;
                    return None;
                }
            }
            let _ = progress.write_at(&(i + 1).to_le_bytes(), slot);
            *current.lock().unwrap() = Some((i, Instant::now()));
            let (viol, poisoned) = do_run(prop, i, &mut acc);
            *current.lock().unwrap() = None;
            let _ = progress.write_at(&0u64.to_le_bytes(), slot);
            if let Some(v) = viol {
                acc.s.viol = Some((i, v.oracle, v.msg));
                best.write_at(&(i + 1).to_le_bytes(), slot).expect("cannot write a shared file");
                return None;
            }
            Some(poisoned)
        });
        finished.store(true, SeqCst);
    });
    acc.s.wall_s = start.elapsed().as_secs_f64();
    let words = |h: &HashSet<u64>| h.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>();
    fs::write(dir.join(format!("fps-{k}")), words(&acc.fps)).expect("cannot write the results");
    fs::write(dir.join(format!("traces-{k}")), words(&acc.traces)).expect("cannot write the results");
    fs::write(dir.join(format!("summary-{k}.json")), serde_json::to_vec(&acc.s).unwrap()).expect("cannot write the results");
    0
}

fn collect(dirs: &[&Path], n: u64) -> Option<Summary> {
    let words = |f: PathBuf| -> Option<Vec<u64>> {
        let b = fs::read(f).ok()?;
        Some(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect())
    };
    let mut all = Acc::default();
    let mut first: Option<(u64, String, String)> = None;
    let mut wall_s = 0.0;
    for (dir, k) in dirs.iter().flat_map(|d| (0..n).map(move |k| (d, k))) {
        let s: Summary = serde_json::from_slice(&fs::read(dir.join(format!("summary-{k}.json"))).ok()?).ok()?;
        if k == 0 {
            wall_s += all.s.wall_s;
            all.s.wall_s = 0.0;
        }
        if let Some(v) = &s.viol {
            if first.as_ref().map_or(true, |f| v.0 < f.0) {
                first = Some(v.clone());
            }
        }
        all.s.capped |= s.capped;
        all.s.wall_s = all.s.wall_s.max(s.wall_s);
        let fps = words(dir.join(format!("fps-{k}")))?.into_iter().collect();
        let traces = words(dir.join(format!("traces-{k}")))?.into_iter().collect();
        all.merge(Acc { s, fps, traces });
    }
    let mut s = all.s;
    s.wall_s += wall_s;
    s.viol = first;
    s.distinct_nontrivial = all.fps.len() as u64;
    s.distinct_schedules = all.traces.len() as u64;
    s.samples.sort_by_key(|x| x["run"].as_u64());
    s.samples.truncate(4);
    Some(s)
}

/// Runs the plan of a replay file after the runs of its history, if any; exit 10 if it
/// violates, 0 if not, 3 on an internal error.
pub fn one(file: &str) -> i32 {
    let r: Replay = serde_json::from_slice(&fs::read(file).expect("cannot read the plan")).expect("bad plan");
    let (v, e) = redo(&r);
    match (v, e) {
        (Some(v), _) => {
            println!("{}\n{}", v.oracle, v.msg);
            10
        }
        (None, true) => 3,
        _ => 0,
    }
}

fn redo(r: &Replay) -> (Option<Viol>, bool) {
    simrt::set_coarse(r.coarse);
    if r.history.is_empty() {
        let x = run_fresh(&r.plan);
        return (x.viol, x.error.is_some());
    }
    std::env::set_var("VERIF_SEED", r.verif_seed.to_string());
    let mut acc = Acc::default();
    let mut found = None;
    on_threads(r.history.iter().copied().chain([r.run]), &mut |i| {
        let (v, poisoned) = do_run(&r.property, i, &mut acc);
        if i == r.run {
            found = v;
            return None;
        }
        Some(poisoned)
    });
    (found, !acc.s.errors.is_empty())
}

// ---- supervisor ----------------------------------------------------------------------------

struct Scratch(PathBuf);
impl Scratch {
    fn new(name: &str) -> Self {
        let d = std::env::temp_dir().join(format!("trie-sim-{name}-{}", std::process::id()));
        let _ = fs::remove_dir_all(&d);
        fs::create_dir_all(&d).expect("cannot make a scratch directory");
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

/// Which build this is: with overflow checks and debug assertions or without.
const BUILD: &str = if cfg!(debug_assertions) { "checked" } else { "plain" };

fn me() -> Command {
    command(std::env::current_exe().expect("cannot find myself"))
}

/// The simulator in the given build.
fn build(which: &str) -> Command {
    let me = std::env::current_exe().expect("cannot find myself");
    let dir = me.parent().and_then(|d| d.parent()).expect("cannot find the builds");
    command(dir.join(if which == "plain" { "plain" } else { "release" }).join("harness"))
}

fn command(exe: PathBuf) -> Command {
    use std::os::unix::process::CommandExt;
    extern "C" {
        fn personality(p: std::ffi::c_ulong) -> std::ffi::c_int;
    }
    const ADDR_NO_RANDOMIZE: std::ffi::c_ulong = 0x0040000;
    let mut c = Command::new(exe);
    c.stdin(Stdio::null());
    // The same addresses every time, should the code under test depend on them.
    unsafe {
        c.pre_exec(|| {
            personality(ADDR_NO_RANDOMIZE);
            Ok(())
        });
    }
    c
}

/// Exit code of a child, None if it was ended by a signal or the time limit.
fn wait(mut c: Child, limit: Duration) -> Option<i32> {
    let t = Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(s)) => return s.code(),
            Ok(None) if t.elapsed() < limit => std::thread::sleep(Duration::from_millis(5)),
            _ => {
                let _ = c.kill();
                let _ = c.wait();
                return None;
            }
        }
    }
}

/// The same programs without any preemption.
fn serial(plan: &Plan) -> Plan {
    let mut p = plan.clone();
    p.sched = SchedSpec::Serial;
    p
}

fn without_storing(plan: &Plan) -> Plan {
    let mut p = plan.clone();
    for ops in p.tasks.iter_mut().chain([&mut p.setup]) {
        ops.retain(|o| !matches!(o, crate::plan::Op::Save { .. } | crate::plan::Op::Load { .. }));
    }
    p
}

/// What a fresh process makes of this: its exit code and the oracle that failed.
fn in_fresh_process(r: &Replay, dir: &Path, limit: Duration, threads: bool) -> (Option<i32>, String) {
    let f = dir.join("candidate.json");
    let out = dir.join("candidate.out");
    fs::write(&f, serde_json::to_vec(r).unwrap()).expect("cannot write a plan");
    let o = fs::File::create(&out).expect("cannot write");
    let c = me()
        .arg(if threads { "one-threads" } else { "one" })
        .arg(&f)
        .stdout(o)
        .stderr(Stdio::null())
        .spawn()
        .expect("cannot start a run");
    let code = wait(c, limit);
    let text = fs::read_to_string(&out).unwrap_or_default();
    (code, text.lines().next().unwrap_or_default().to_string())
}

/// Does this plan crash or hang a fresh process?
fn breaks(plan: &Plan, dir: &Path, limit: Duration, coarse: bool) -> bool {
    let r = Replay { coarse, ..new_replay(&plan.prop, 0, plan.clone()) };
    in_fresh_process(&r, dir, limit, false).0.is_none()
}

fn new_replay(prop: &str, i: u64, plan: Plan) -> Replay {
    Replay {
        property: prop.into(),
        verif_seed: base_seed(),
        run: i,
        run_seed: run_seed(prop, i),
        oracle: String::new(),
        message: String::new(),
        kind: "plan".into(),
        history: vec![],
        coarse: false,
        build: BUILD.into(),
        shrunk_from: size(&plan),
        size: size(&plan),
        plan,
        shrink_runs: 0,
        reproduced_in_fresh_process: false,
        trace: vec![],
    }
}

#[derive(Clone, Serialize, Deserialize)]
struct Replay {
    property: String,
    verif_seed: u64,
    run: u64,
    run_seed: u64,
    oracle: String,
    message: String,
    /// "plan": the plan below; "history": run number `run` after those in `history`, in one
    /// process; "abort": the plan ends or hangs the process.
    kind: String,
    #[serde(default)]
    history: Vec<u64>,
    #[serde(default)]
    coarse: bool,
    /// See `BUILD`.
    #[serde(default)]
    build: String,
    plan: Plan,
    shrunk_from: usize,
    size: usize,
    shrink_runs: u64,
    reproduced_in_fresh_process: bool,
    trace: Vec<String>,
}

fn describe(p: &Plan) -> Vec<String> {
    let mut out = vec![];
    let line = |v: Value| serde_json::to_string(&v).unwrap();
    if let Some(x) = &p.pipe {
        out.push(format!("trie: {}", line(json!(x.kv))));
        for (i, r) in x.rounds.iter().enumerate() {
            for (j, job) in r.iter().enumerate() {
                out.push(format!("round {i} job {j}: {}", line(json!(job))));
            }
        }
        out.push(format!("network faults: {}", line(json!(x.net))));
        out.push(format!("partitions: {} crashes: {}", line(json!(x.parts)), line(json!(x.crashes))));
    }
    for o in &p.setup {
        out.push(format!("setup: {}", line(json!(o))));
    }
    for (t, ops) in p.tasks.iter().enumerate() {
        for o in ops {
            out.push(format!("task {t}: {}", line(json!(o))));
        }
    }
    out.push(format!("schedule: {}", line(json!(p.sched))));
    out
}

fn tier() -> String {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough".into(),
        _ => "quick".into(),
    }
}

enum Explored {
    Held(Box<Summary>),
    Found(Box<Summary>, PathBuf, String),
    /// Only the way tasks are simulated can explain what was seen.
    Unfaithful(String),
    /// A process ended from outside, or was starved.
    Disturbed(String),
    Failed(String),
}

pub fn check(prop: &str) -> i32 {
    let start = Instant::now();
    if let Err(e) = crate::model::self_check() {
        eprintln!("{e}");
        return 2;
    }
    let tier = tier();
    let mut coarse = false;
    let mut r = both_parts(prop, &tier, coarse);
    if let Explored::Disturbed(why) = &r {
        eprintln!("{why}; trying again");
        r = both_parts(prop, &tier, coarse);
    }
    if let Explored::Unfaithful(why) = &r {
        eprintln!("{why}; continuing with switches between operations only");
        coarse = true;
        r = both_parts(prop, &tier, coarse);
    }
    match r {
        Explored::Held(s) => {
            evidence(prop, &tier, &s, None, start, coarse);
            println!(
                "{prop} held: {} runs, {} distinct non-trivial, {} steps, {:.1} s",
                s.runs, s.distinct_nontrivial, s.steps, s.wall_s
            );
            0
        }
        Explored::Found(s, path, text) => {
            println!("{text}");
            println!("VIOLATION property={prop} replay={}", path.display());
            evidence(prop, &tier, &s, Some(&(path, text)), start, coarse);
            1
        }
        Explored::Unfaithful(why) | Explored::Disturbed(why) | Explored::Failed(why) => {
            eprintln!("{why}");
            2
        }
    }
}

fn both_parts(prop: &str, tier: &str, coarse: bool) -> Explored {
    let (runs, cap) = budget(prop, tier);
    let first = (runs * 2 / 3).next_multiple_of(CHUNK);
    let (a, b) = (Scratch::new(&format!("{prop}-a")), Scratch::new(&format!("{prop}-b")));
    let checked = match explore(prop, Part { from: 0, to: first, cap: cap * 2 / 3, coarse }, &a.0) {
        Explored::Held(s) => s,
        r => return r,
    };
    let mut c = build("plain");
    c.args(["part", prop]).args([first, runs, cap / 3, coarse as u64].map(|x| x.to_string())).arg(&b.0);
    let code = match c.spawn() {
        Ok(c) => wait(c, Duration::from_secs(cap) + hang_limit() * 2 + Duration::from_secs(330)),
        Err(e) => return Explored::Failed(format!("cannot start the build without overflow checks: {e}")),
    };
    let text = fs::read_to_string(b.0.join("outcome")).unwrap_or_default();
    let all = collect(&[&a.0, &b.0], workers() as u64).map(Box::new);
    match (code, all) {
        (Some(HELD), Some(mut s)) => {
            s.plain_runs = s.runs - checked.runs;
            Explored::Held(s)
        }
        (Some(FOUND), s) => {
            let (path, text) = text.split_once('\n').unwrap_or_default();
            let mut s = s.unwrap_or(checked);
            s.viol = None;
            Explored::Found(s, path.into(), text.into())
        }
        (Some(UNFAITHFUL), _) => Explored::Unfaithful(text),
        (Some(DISTURBED), _) => Explored::Disturbed(text),
        (c, _) => Explored::Failed(format!("the build without overflow checks ends with {c:?}: {text}")),
    }
}

const HELD: i32 = 20;
const FOUND: i32 = 21;
const UNFAITHFUL: i32 = 22;
const DISTURBED: i32 = 23;

/// A part of a check as a process of its own; says how it went by its exit code and the
/// file "outcome".
pub fn part(prop: &str, part: Part, dir: &str) -> i32 {
    let dir = Path::new(dir);
    let (code, text) = match explore(prop, part, dir) {
        Explored::Held(_) => (HELD, String::new()),
        Explored::Found(_, path, text) => (FOUND, format!("{}\n{text}", path.display())),
        Explored::Unfaithful(t) => (UNFAITHFUL, t),
        Explored::Disturbed(t) => (DISTURBED, t),
        Explored::Failed(t) => (2, t),
    };
    fs::write(dir.join("outcome"), text).expect("cannot write the outcome");
    code
}

fn explore(prop: &str, part: Part, dir: &Path) -> Explored {
    let Part { from, to, cap, coarse } = part;
    let n = workers() as u64;
    for f in ["progress", "best"] {
        fs::write(dir.join(f), vec![0u8; 8 * n as usize]).expect("cannot write a shared file");
    }
    let mut children: Vec<Option<Child>> = (0..n)
        .map(|k| {
            let mut c = me();
            c.args(["work", prop]).args([from, to, cap, coarse as u64].map(|x| x.to_string())).arg(dir);
            c.args([k, n].map(|x| x.to_string()));
            Some(c.spawn().expect("cannot start the simulation"))
        })
        .collect();
    let deadline = Instant::now() + Duration::from_secs(cap) + hang_limit() * 2 + Duration::from_secs(30);
    let mut bad: Option<(u64, Option<i32>)> = None;
    while bad.is_none() && children.iter().any(|c| c.is_some()) {
        std::thread::sleep(Duration::from_millis(5));
        for (k, slot) in children.iter_mut().enumerate() {
            let Some(c) = slot else { continue };
            match c.try_wait() {
                Ok(None) if Instant::now() < deadline => {}
                Ok(Some(st)) if st.code() == Some(0) => *slot = None,
                Ok(Some(st)) => bad = Some((k as u64, st.code())),
                _ => bad = Some((k as u64, None)),
            }
        }
    }
    for c in children.iter_mut().flatten() {
        let _ = c.kill();
        let _ = c.wait();
    }
    let Some((k, code)) = bad else {
        let Some(s) = collect(&[dir], n) else {
            return Explored::Failed("the simulation left no summary".into());
        };
        for e in &s.errors {
            eprintln!("internal error: {e}");
        }
        return match s.viol.clone() {
            Some((i, o, m)) => match report(prop, i, o, m, dir, part, n) {
                Ok((path, text)) => Explored::Found(Box::new(s), path, text),
                Err(why) => Explored::Unfaithful(why),
            },
            None if !s.errors.is_empty() => Explored::Failed("internal errors".into()),
            None => Explored::Held(Box::new(s)),
        };
    };
    // A process died or hung. Find the run responsible.
    let hang = dir.join("hang").exists();
    let slot = fs::read(dir.join("progress")).ok().and_then(|b| Some(u64::from_le_bytes(b.get(8 * k as usize..)?.get(..8)?.try_into().ok()?)));
    let suspect = match fs::read_to_string(dir.join("hang")) {
        Ok(t) => t.trim().parse::<u64>().ok(),
        Err(_) => slot.and_then(|x| x.checked_sub(1)),
    };
    let Some(i) = suspect else {
        return Explored::Disturbed(format!("a worker ended with {code:?} outside any run"));
    };
    let plan = generate(prop, run_seed(prop, i));
    let limit = hang_limit() + Duration::from_secs(5);
    if !breaks(&plan, dir, limit, coarse) {
        return Explored::Disturbed(format!("a worker ended with {code:?} in run {i}, which does not happen again"));
    }
    // All simulated threads share one OS thread, so a lock the simulator does not know
    // may seem stuck when its holder was merely preempted. Only a plan that also
    // breaks without preemption shows that a call does not return.
    let plan = match hang {
        true => serial(&plan),
        false => plan,
    };
    if hang && !breaks(&plan, dir, limit, coarse) {
        return Explored::Unfaithful(format!("run {i} of {prop} hangs under preemption only, on something the simulator does not see"));
    }
    // Storing promises that what was written loads, so the process must survive that.
    let storing = prop == "C09" && !breaks(&without_storing(&plan), dir, limit, coarse);
    if !promises_return(prop) && !storing {
        return Explored::Failed(format!("run {i} of {prop} ends or hangs the process; this property does not promise otherwise, but cannot be decided"));
    }
    let (path, text) = report_abort(prop, i, plan, dir, coarse);
    Explored::Found(Box::new(Summary { runs: i + 1 - from, ..Summary::default() }), path, text)
}

fn replay_path(prop: &str, i: u64) -> PathBuf {
    let d = verif().join("replays");
    fs::create_dir_all(&d).expect("cannot make the replay directory");
    d.join(format!("{prop}-{}-{i}.json", base_seed()))
}

/// Err: it does not happen when the same run is done with real threads, nor without
/// preemption on one thread.
fn report(prop: &str, i: u64, oracle: String, msg: String, dir: &Path, part: Part, n: u64) -> Result<(PathBuf, String), String> {
    let coarse = part.coarse;
    let plan = generate(prop, run_seed(prop, i));
    let path = replay_path(prop, i);
    let limit = Duration::from_secs(120);
    let again = |r: &Replay| in_fresh_process(r, dir, limit, false) == (Some(10), oracle.clone());
    let mut rep = Replay { oracle: oracle.clone(), message: msg, coarse, ..new_replay(prop, i, plan.clone()) };
    let alone = again(&rep);
    if !alone {
        // Depends on earlier runs: state outside the tries.
        rep.kind = "history".into();
        minimise_history(&mut rep, i, n, part.from, &again);
    }
    if !coarse && (alone || !rep.history.is_empty()) {
        let threads = in_fresh_process(&rep, dir, limit, true) == (Some(10), oracle.clone());
        if !threads && !again(&Replay { coarse: true, ..rep.clone() }) {
            return Err(format!("run {i} of {prop} fails (\"{oracle}\") only when simulated threads share thread-local state"));
        }
    }
    if alone {
        simrt::set_coarse(coarse);
        let mut sh =
            Shrinker { oracle: oracle.clone(), deadline: Instant::now() + Duration::from_secs(25), tries: 0, fails: None };
        let small = sh.shrink(&plan);
        rep.shrink_runs = sh.tries;
        if let Some(v) = run_fresh(&small).viol {
            let s = Replay { message: v.msg, size: size(&small), plan: small, ..rep.clone() };
            if again(&s) {
                rep = s;
            }
        }
    }
    rep.trace = describe(&rep.plan);
    if !rep.history.is_empty() {
        rep.trace.insert(0, format!("after, in the same process, runs {:?}", rep.history));
    }
    write_replay(&path, &rep);
    let c = me().arg("replay").arg(&path).stdout(Stdio::null()).stderr(Stdio::null()).spawn();
    rep.reproduced_in_fresh_process = c.ok().and_then(|c| wait(c, Duration::from_secs(200))) == Some(1);
    write_replay(&path, &rep);
    let text = format!(
        "{prop}: oracle \"{}\" fails in run {i} (seed {}): {}\nminimised from {} to {} operations:\n  {}",
        rep.oracle,
        rep.run_seed,
        rep.message,
        rep.shrunk_from,
        rep.size,
        rep.trace.join("\n  ")
    );
    Ok((path, text))
}

/// Finds few earlier runs after which the run fails.
fn minimise_history(rep: &mut Replay, i: u64, n: u64, from: u64, again: &dyn Fn(&Replay) -> bool) {
    let all: Vec<u64> = runs_of((i - from) / CHUNK % n, n, from, i).collect();
    let end = Instant::now() + Duration::from_secs(150);
    let mut len = 1;
    loop {
        rep.history = all[all.len().saturating_sub(len)..].to_vec();
        if again(rep) {
            break;
        }
        if len >= all.len() || Instant::now() > end {
            rep.history.clear();
            return;
        }
        len *= 4;
    }
    let mut part = rep.history.len() / 2;
    while part > 0 {
        let mut at = 0;
        while at < rep.history.len() && Instant::now() < end {
            let mut r = rep.clone();
            r.history.drain(at..(at + part).min(rep.history.len()));
            if !r.history.is_empty() && again(&r) {
                *rep = r;
            } else {
                at += part;
            }
        }
        part /= 2;
    }
}

fn report_abort(prop: &str, i: u64, plan: Plan, dir: &Path, coarse: bool) -> (PathBuf, String) {
    let path = replay_path(prop, i);
    let fails = |p: &Plan| breaks(p, dir, Duration::from_secs(8), coarse);
    let mut sh = Shrinker {
        oracle: "the calls return".into(),
        deadline: Instant::now() + Duration::from_secs(60),
        tries: 0,
        fails: Some(&fails),
    };
    let small = sh.shrink(&plan);
    let rep = Replay {
        oracle: "the calls return".into(),
        message: "the code under test ends the process or never returns".into(),
        kind: "abort".into(),
        coarse,
        shrunk_from: size(&plan),
        shrink_runs: sh.tries,
        reproduced_in_fresh_process: true,
        trace: describe(&small),
        ..new_replay(prop, i, small)
    };
    write_replay(&path, &rep);
    let text = format!("{prop}: run {i}: {}\n  {}", rep.message, rep.trace.join("\n  "));
    (path, text)
}

fn write_replay(path: &Path, r: &Replay) {
    fs::write(path, serde_json::to_vec_pretty(r).unwrap()).expect("cannot write the replay file");
}

/// Exit 1 if the recorded violation happens again exactly, 0 if not.
pub fn replay(file: &str) -> i32 {
    let r: Replay = serde_json::from_slice(&fs::read(file).expect("cannot read the replay file")).expect("bad replay file");
    if !r.build.is_empty() && r.build != BUILD {
        let c = build(&r.build).args(["replay", file]).spawn().expect("cannot start the other build");
        return wait(c, Duration::from_secs(600)).unwrap_or(2);
    }
    let dir = Scratch::new("replay");
    let found = match &*r.kind {
        "abort" => breaks(&r.plan, &dir.0, Duration::from_secs(20), r.coarse).then(|| r.message.clone()),
        _ => {
            let f = dir.0.join("replay.json");
            fs::write(&f, serde_json::to_vec(&r).unwrap()).expect("cannot write a plan");
            let o = me().arg("one").arg(&f).stderr(Stdio::null()).output().expect("cannot start a run");
            let text = String::from_utf8_lossy(&o.stdout).to_string();
            (o.status.code() == Some(10)).then(|| {
                let text = text.trim_end().replacen('\n', ": ", 1);
                if text != format!("{}: {}", r.oracle, r.message) {
                    println!("a different violation:");
                }
                text
            })
        }
    };
    match found {
        Some(text) => {
            println!("reproduced: {text}");
            for l in &r.trace {
                println!("  {l}");
            }
            println!("VIOLATION property={} replay={file}", r.property);
            1
        }
        None => {
            println!("not reproduced");
            0
        }
    }
}

/// Whether eth_trie_utils was compiled with `simstd` (see bin/rustc-wrapper.sh).
fn std_seam() -> bool {
    let dir = std::env::current_exe().expect("own path");
    fs::read_to_string(dir.with_file_name("std-seam")).is_ok_and(|s| s.trim() == "yes")
}

fn evidence(prop: &str, tier: &str, s: &Summary, viol: Option<&(PathBuf, String)>, start: Instant, coarse: bool) {
    let d = verif().join("evidence");
    fs::create_dir_all(&d).expect("cannot make the evidence directory");
    let mut faults = serde_json::Map::new();
    for (n, c) in FIRED_NAMES.iter().zip(&s.fired) {
        if *c > 0 {
            faults.insert(n.to_string(), json!(c));
        }
    }
    let wall = s.wall_s.max(0.001);
    let rule = "A case is one simulated execution generated from (VERIF_SEED, property, run index): a trie, \
        programs for the simulated threads, a schedule and faults. ".to_string() + nontrivial_rule(prop)
        + " Two cases are the same if all answers (lookups, hashes, lengths, outcomes) and the sequence of \
        (thread, kind of scheduling point) are the same.";
    let e = json!({
        "property": prop,
        "tier": tier,
        "seed": base_seed() as i64,
        "level": "exploration",
        "coverage": {
            "evaluations": s.runs,
            "distinct_nontrivial": s.distinct_nontrivial,
            "rule": rule,
            "samples": s.samples,
            "oracle_evaluations": s.oracles,
            "operations": s.ops,
            "distinct_schedules": s.distinct_schedules,
            "distinct_schedules_measure": "distinct sequences of (thread, kind of scheduling point)",
            "scheduling_steps": s.steps,
            "longest_run_steps": s.max_steps,
            "runs_cut_by_the_step_bound": s.cut,
            "context_switches": s.switches,
            "times_a_thread_blocked": s.blocked,
            "runs_with_several_threads": s.multi_task_runs,
            "simulated_time_s": s.virtual_us as f64 / 1e6,
            "faults_injected": faults,
            "runs_with_a_fault": s.runs_with_fault,
            "runs_per_hour_one_seed_each": (s.runs as f64 / wall * 3600.0) as u64,
            "simulation_wall_s": s.wall_s,
            "stopped_by_time_cap": s.capped,
            "runs_repeated_to_check_determinism": s.rechecked,
            "repetitions_that_differed": s.mismatched,
            "runs_without_overflow_checks_and_debug_assertions": s.plain_runs,
            "switches_between_operations_only": coarse,
            "std_locks_simulated": std_seam(),
            "real_components": ["eth_trie_utils (all of src/, unmodified)", "serde, bincode, serde_json, ciborium, rlp, ethereum-types, tiny-keccak", "lock_api"],
            "stub_components": ["parking_lot (simulated locks)", "locks, atomics and thread-locals of std, if std_locks_simulated", "keccak-hash (the real code plus a counter and a scheduling point)", "getrandom (fixed)", "log backend", "threads (coroutines under a seeded scheduler)", "files and streams", "network (C06)", "clock"],
        },
        "assumptions": [
            "the library's only shared mutable state is behind locks, atomics and once cells (it has no unsafe code)",
            "interleavings inside code between two scheduling points (lock operations, hash computations, log calls, callbacks, I/O) are not distinguished",
        ],
        "violations": viol.map(|v| vec![json!({"replay": v.0, "text": v.1})]).unwrap_or_default(),
        "wall_s": start.elapsed().as_secs_f64(),
    });
    fs::write(d.join(format!("{prop}.json")), serde_json::to_vec_pretty(&e).unwrap()).expect("cannot write the evidence");
}

fn nontrivial_rule(prop: &str) -> &'static str {
    match prop {
        "C01" => "Non-trivial: a trie was hashed that had been changed after it or a relative of it had been hashed.",
        "C02" => "Non-trivial: a handle or iterator was observed after another handle of the same family had been changed.",
        "C03" => "Non-trivial: a lookup or delete was judged on a trie with at least two entries.",
        "C04" => "Non-trivial: a trie with at least two entries that had been changed after being hashed was hashed, or two tries were compared.",
        "C05" => "Non-trivial: a subset for at least one key of a trie with at least two entries was judged.",
        "C06" => "Non-trivial: a worker's answers to at least two operations on a trie with at least two entries were judged.",
        "C07" => "Non-trivial: a batch of at least two requests on a trie with at least two entries was judged.",
        "C08" => "Non-trivial: an insert, bulk insert or delete failed midway.",
        "C09" => "Non-trivial: a file was read back.",
        "C10" => "Non-trivial: at least one thread had to wait for a lock.",
        "C11" => "Non-trivial: at least two threads, and an answer was compared with the one given alone.",
        "C12" => "Non-trivial: an iteration over at least two entries with a change by somebody else meanwhile, or over a trie with hidden parts or more than two levels.",
        "C13" => "Non-trivial: a diff of two tries that really differ, with more than two entries in total, was judged.",
        "C14" => "Non-trivial: keys or values were given in at least six different forms.",
        "C15" => "Non-trivial: keys arrived in at least three different encodings.",
        "C17" => "Non-trivial: statistics of a trie of more than one node were judged.",
        "C18" => "Non-trivial: a path of at least two nodes was judged.",
        "C19" => "Non-trivial: a trie of more than 8 nodes was hashed, more than half of which had been hashed before as part of this or another trie.",
        _ => "",
    }
}

// ---- inspection -----------------------------------------------------------------------------

pub fn show(prop: &str, seed: u64) {
    let p = generate(prop, seed);
    for l in describe(&p) {
        println!("{l}");
    }
    let r = run_fresh(&p);
    println!("steps {} switches {} blocked {} fp {:016x} {:?} {:?} {:?}", r.steps, r.switches, r.blocked, r.fp, r.outcome, r.viol, r.error);
}

pub const PROPS: [&str; 18] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C17", "C18", "C19",
];

/// One line per property: a digest over the results of runs 0..n.
pub fn digest(n: u64) {
    for p in PROPS {
        let mut h = 0u64;
        for i in 0..n {
            let r = run_fresh(&generate(p, run_seed(p, i)));
            h = mix(h ^ r.fp ^ mix(r.steps) ^ r.viol.is_some() as u64);
        }
        println!("{p} {h:016x}");
    }
}

/// The same seeds give the same executions in different processes, and whether tasks are
/// coroutines or OS threads.
pub fn selftest() -> i32 {
    let run = |how: &str, n: &str| {
        let o = me().args([how, n]).output().expect("cannot start a run");
        String::from_utf8_lossy(&o.stdout).to_string()
    };
    let a = run("digest", "300");
    print!("{a}");
    for (x, y, what) in [
        (a, run("digest", "300"), "two processes"),
        (run("digest", "40"), run("digest-threads", "40"), "coroutines and OS threads"),
    ] {
        if x != y || x.lines().count() != PROPS.len() {
            println!("DIFFERENT in {what}:\n{y}");
            return 2;
        }
        println!("identical in {what}");
    }
    0
}
