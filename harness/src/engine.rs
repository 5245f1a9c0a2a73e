//! Exhaustive-exploration engine: work units are claimed by worker processes (own address space each, so that
//! a hang or crash of the code under test is contained and attributed to one case), cases inside a unit are
//! numbered deterministically, and (domain, unit, case number) is a complete replay coordinate.

use std::collections::BTreeMap;
use std::fs;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::time::{Duration, Instant};

use serde_json::{json, Value};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        if self == Tier::Quick { "quick" } else { "thorough" }
    }
    pub fn pick<T>(self, quick: T, thorough: T) -> T {
        if self == Tier::Quick { quick } else { thorough }
    }
}

/// A finite space of cases, split in units that can be explored independently.
pub struct Dom {
    pub name: String,
    pub bound: String,
    pub units: usize,
    pub run: Box<dyn Fn(usize, &mut Cx)>,
}

pub fn dom(name: &str, bound: &str, units: usize, run: impl Fn(usize, &mut Cx) + 'static) -> Dom {
    Dom { name: name.into(), bound: bound.into(), units, run: Box::new(run) }
}

/// What one property's check explores and how it is reported.
pub struct Plan {
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub doms: Vec<Dom>,
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Mode {
    Explore,
    /// Execute the unit up to case `n` and report what happens in exactly that case.
    Only(u64),
    /// Execute everything up to case `n`, including the cases that do not depend on each other, in case the code under
    /// test keeps something from one call to the next; report what happens in case `n`.
    Through(u64),
    /// Execute the unit up to (not including) case `n` and print the description of that case.
    Describe(u64),
}

/// Outcome class of a case; "trivial" classes are not counted as non-trivial.
pub type Class = &'static str;

pub struct Cx {
    pub mode: Mode,
    pub prop: String,
    seq: u64,
    dom: usize,
    unit: usize,
    slot: Option<&'static [AtomicU64]>,
    stop: Option<&'static AtomicU64>,
    pub evaluations: u64,
    pub nontrivial: u64,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub classes: BTreeMap<String, u64>,
    pub samples: BTreeMap<String, String>,
    pub violations: Vec<Value>,
    pub known_hits: BTreeMap<String, u64>,
    known: Vec<String>,
    pub stopped: bool,
}

impl Cx {
    fn new(prop: &str, mode: Mode, known: Vec<String>) -> Cx {
        Cx {
            mode, prop: prop.into(), seq: 0, dom: 0, unit: 0, slot: None, stop: None,
            evaluations: 0, nontrivial: 0, states: 0, transitions: 0, traces: 0,
            classes: BTreeMap::new(), samples: BTreeMap::new(), violations: vec![],
            known_hits: BTreeMap::new(), known, stopped: false,
        }
    }

    pub fn exploring(&self) -> bool {
        self.mode == Mode::Explore
    }

    /// True when exploration should wind down (a violation was found somewhere, or the replayed case is done).
    pub fn done(&self) -> bool {
        self.stopped || self.stop.map_or(false, |s| s.load(Relaxed) != 0)
    }

    /// One case: `f` executes the code under test and judges it. `Ok(class)` is the outcome class (classes that
    /// start with '-' are trivial), `Err(message)` is a violation of the property, a panic of `f` as well.
    pub fn case(&mut self, describe: impl Fn() -> String, f: impl FnOnce() -> Result<Class, String>) -> bool {
        self.case_full(describe, |_| f().map(|c| (c, ())), true).is_some()
    }

    /// Like `case`, for stateful exploration: the value is handed back to continue exploring. `stateless = false`
    /// means the case must be executed also while replaying a later case of the unit.
    pub fn case_full<R>(
        &mut self,
        describe: impl Fn() -> String,
        f: impl FnOnce(&mut Cx) -> Result<(Class, R), String>,
        stateless: bool,
    ) -> Option<R> {
        let seq = self.seq;
        self.seq += 1;
        match self.mode {
            Mode::Explore => {
                if let Some(s) = self.slot {
                    s[1].store(seq, Relaxed);
                }
            }
            Mode::Only(n) => {
                if self.stopped || (stateless && seq != n) {
                    return None;
                }
                if seq == n {
                    self.stopped = true;
                }
            }
            Mode::Through(n) => {
                if self.stopped {
                    return None;
                }
                if seq == n {
                    self.stopped = true;
                }
            }
            Mode::Describe(n) => {
                if self.stopped {
                    return None;
                }
                if seq == n {
                    self.stopped = true;
                    self.samples.insert("described".into(), describe());
                    return None;
                }
                if stateless {
                    return None;
                }
            }
        }
        self.evaluations += 1;
        let mut me = AssertUnwindSafe(&mut *self);
        let r = catch_unwind(AssertUnwindSafe(move || { let me = &mut me; f(&mut *me.0) }));
        match r {
            Ok(Ok((class, v))) => {
                if !class.starts_with('-') {
                    self.nontrivial += 1;
                }
                let c = self.classes.entry(format!("{}/{}", self.dom, class)).or_insert(0);
                *c += 1;
                if *c == 1 && self.samples.len() < 40 {
                    let d = describe();
                    self.samples.insert(format!("{}/{}", self.dom, class), d);
                }
                Some(v)
            }
            Ok(Err(msg)) => {
                self.violate(seq, describe(), msg);
                None
            }
            Err(p) => {
                let msg = p.downcast_ref::<String>().cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_else(|| "?".into());
                self.violate(seq, describe(), format!("the code under test panicked: {}", msg));
                None
            }
        }
    }

    fn violate(&mut self, seq: u64, desc: String, msg: String) {
        for k in &self.known {
            if !k.is_empty() && desc.contains(k.as_str()) {
                *self.known_hits.entry(k.clone()).or_insert(0) += 1;
                return;
            }
        }
        if self.mode != Mode::Explore {
            match self.mode {
                Mode::Only(n) | Mode::Through(n) if n == seq => {}
                _ => return,
            }
        }
        if self.violations.len() < 5 {
            self.violations.push(json!({"dom": self.dom, "unit": self.unit, "seq": seq, "case": desc, "message": msg}));
        }
        if self.mode == Mode::Explore {
            if let Some(s) = self.stop {
                s.store(1, Relaxed);
            }
        }
    }
}

// ---- shared progress board: a small file mapped by parent and workers -------------------------------------

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

const MAX_WORKERS: usize = 64;
const BOARD_WORDS: usize = 16 + MAX_WORKERS * 8;

fn board(path: &Path) -> &'static [AtomicU64] {
    use std::os::unix::io::AsRawFd;
    let f = fs::OpenOptions::new().read(true).write(true).create(true).open(path).expect("board file");
    f.set_len((BOARD_WORDS * 8) as u64).expect("board size");
    // PROT_READ|PROT_WRITE, MAP_SHARED
    let p = unsafe { mmap(std::ptr::null_mut(), BOARD_WORDS * 8, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1, "mmap failed");
    unsafe { std::slice::from_raw_parts(p as *const AtomicU64, BOARD_WORDS) }
}

fn slot(b: &'static [AtomicU64], w: usize) -> &'static [AtomicU64] {
    &b[16 + w * 8..16 + w * 8 + 8]
}

pub fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

fn known_for(prop: &str) -> Vec<(String, String)> {
    // known-findings.json: {"findings": [{"property": .., "match": <text identifying the input>, "what": ..}], "fixed": [..]}
    let p = verif_dir().join("known-findings.json");
    let v: Value = match fs::read_to_string(&p) {
        Ok(s) => serde_json::from_str(&s).expect("known-findings.json is not valid JSON"),
        Err(_) => return vec![],
    };
    v["findings"].as_array().map(|a| {
        a.iter().filter(|e| e["property"] == prop)
            .map(|e| (e["match"].as_str().unwrap_or("").to_string(), e["what"].as_str().unwrap_or("").to_string()))
            .collect()
    }).unwrap_or_default()
}

fn flat(plan: &Plan) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for (d, dm) in plan.doms.iter().enumerate() {
        for u in 0..dm.units {
            v.push((d, u));
        }
    }
    v
}

fn quiet_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}

// Hash maps are the one source of nondeterminism in sequential Rust code: their iteration order depends on random
// keys. The standard library draws two keys per thread, and counts the first one up with every map. Here the keys of
// every new thread are the same, and every unit runs in a thread of its own, so that it is exactly reproducible, and
// running an operation k times enumerates k consecutive seeds.

static HASH_BASE: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

/// Stands in for the system call of the same name, which the standard library uses for the keys of hash maps only.
#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let base = HASH_BASE.load(Relaxed).wrapping_mul(0x9e3779b97f4a7c15).to_le_bytes();
    for i in 0..len {
        unsafe { *buf.add(i) = base[i % 8] ^ (i as u8).wrapping_mul(37).wrapping_add(11) };
    }
    len as isize
}

pub fn set_hash_base() {
    if let Some(b) = std::env::var("KAMIMC_HASH").ok().and_then(|s| s.parse().ok()) { HASH_BASE.store(b, Relaxed); }
}

/// Runs `f` in a new thread and waits for it.
fn in_new_thread<R>(f: impl FnOnce() -> R) -> std::thread::Result<R> {
    struct Any<T>(T);
    // nothing runs concurrently: this thread waits
    unsafe impl<T> Send for Any<T> {}
    let f = Any(f);
    std::thread::scope(|s| {
        let h = std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, move || { let f = f; Any((f.0)()) }).expect("a thread");
        h.join()
    }).map(|r| r.0)
}

fn run_unit(plan: &Plan, cx: &mut Cx) {
    let (d, u) = (cx.dom, cx.unit);
    if let Err(e) = in_new_thread(|| (plan.doms[d].run)(u, cx)) {
        // a panic outside of any case is a mistake of the harness
        std::panic::resume_unwind(e);
    }
}

pub fn worker(prop: &str, plan: &Plan, board_path: &str, w: usize, out: &str) {
    quiet_panics();
    let b = board(Path::new(board_path));
    let all = flat(plan);
    let known = known_for(prop).into_iter().map(|k| k.0).collect();
    let mut cx = Cx::new(prop, Mode::Explore, known);
    cx.slot = Some(slot(b, w));
    cx.stop = Some(&b[1]);
    let mut per_dom: BTreeMap<usize, (u64, u64)> = BTreeMap::new();
    let mut trail = fs::File::create(Path::new(out).with_extension("trail")).expect("trail");
    loop {
        if cx.done() {
            break;
        }
        let i = b[0].fetch_add(1, Relaxed) as usize;
        if i >= all.len() {
            break;
        }
        let (d, u) = all[i];
        let _ = writeln!(trail, "{}", i);
        cx.dom = d;
        cx.unit = u;
        cx.seq = 0;
        slot(b, w)[1].store(0, Relaxed);
        slot(b, w)[0].store(i as u64 + 1, Relaxed);
        let before = cx.evaluations;
        run_unit(plan, &mut cx);
        let e = per_dom.entry(d).or_insert((0, 0));
        e.0 += 1;
        e.1 += cx.evaluations - before;
    }
    let r = json!({
        "evaluations": cx.evaluations, "nontrivial": cx.nontrivial, "states": cx.states,
        "transitions": cx.transitions, "traces": cx.traces, "classes": cx.classes, "samples": cx.samples,
        "violations": cx.violations, "known": cx.known_hits,
        "doms": per_dom.iter().map(|(d, (u, e))| json!([d, u, e])).collect::<Vec<_>>(),
    });
    fs::write(out, serde_json::to_vec(&r).unwrap()).expect("worker result");
    slot(b, w)[0].store(0, Relaxed);
}

/// Replays one case in this process and writes the verdict to `out`. The units of the `trail` are executed before.
pub fn replay_one(prop: &str, plan: &Plan, d: usize, u: usize, mode: Mode, trail: &[usize], out: &str) {
    quiet_panics();
    if !trail.is_empty() {
        let all = flat(plan);
        for &i in trail {
            let mut cx = Cx::new(prop, Mode::Through(u64::MAX), vec![]);
            cx.dom = all[i].0;
            cx.unit = all[i].1;
            run_unit(plan, &mut cx);
        }
    }
    let mut cx = Cx::new(prop, mode, vec![]);
    cx.dom = d;
    cx.unit = u;
    run_unit(plan, &mut cx);
    let r = json!({"violations": cx.violations, "described": cx.samples.get("described"), "reached": cx.stopped});
    fs::write(out, serde_json::to_vec(&r).unwrap()).expect("replay result");
}

fn cpu_ticks(pid: u32) -> Option<u64> {
    let s = fs::read_to_string(format!("/proc/{}/stat", pid)).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    Some(f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?)
}

const HANG_TICKS: u64 = 2000; // 20 s of CPU time in one case
const HANG_WALL: Duration = Duration::from_secs(150); // blocked without using CPU

fn spawn(args: &[String], hash: u64) -> Child {
    Command::new(std::env::current_exe().unwrap())
        .args(args).env("KAMIMC_HASH", hash.to_string()).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null())
        .spawn().expect("spawning a worker")
}

/// Runs one replay in a fresh process: Some(json) if it ended by itself with a result, None if it hung or died.
fn replay_process(prop: &str, tier: Tier, d: usize, u: usize, mode: Mode, trail: &[usize], hash: u64, tmp: &Path) -> (Option<Value>, bool) {
    let out = tmp.join("replay.json");
    let _ = fs::remove_file(&out);
    let (m, n) = match mode { Mode::Only(n) => ("only", n), Mode::Through(n) => ("through", n), Mode::Describe(n) => ("describe", n), Mode::Explore => unreachable!() };
    let list = trail.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(",");
    let mut c = spawn(&["replay".into(), prop.into(), tier.name().into(), d.to_string(), u.to_string(), m.into(), n.to_string(), out.to_string_lossy().into_owned(), list], hash);
    let start = Instant::now();
    loop {
        if let Some(_) = c.try_wait().unwrap() {
            let v = fs::read(&out).ok().and_then(|b| serde_json::from_slice(&b).ok());
            return (v, false);
        }
        if start.elapsed() > Duration::from_secs(240) || (m != "through" && cpu_ticks(c.id()).map_or(false, |t| t > 3 * HANG_TICKS)) {
            let _ = c.kill();
            let _ = c.wait();
            return (None, true);
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

pub fn run_check(prop: &str, plan: &Plan, tier: Tier, seed: i64) -> i32 {
    let start = Instant::now();
    let tmp = std::env::temp_dir().join(format!("kamimc-{}-{}", prop, std::process::id()));
    fs::create_dir_all(&tmp).expect("scratch directory");
    let code = run_check_in(prop, plan, tier, seed, start, &tmp);
    let _ = fs::remove_dir_all(&tmp);
    code
}

fn run_check_in(prop: &str, plan: &Plan, tier: Tier, seed: i64, start: Instant, tmp: &Path) -> i32 {
    let all = flat(plan);
    let nw = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(16).min(all.len().max(1));
    let bp = tmp.join("board");
    let b = board(&bp);
    struct W { c: Child, last: (u64, u64), ticks: u64, since: Instant, alive: bool }
    impl Drop for W {
        fn drop(&mut self) {
            if self.alive {
                let _ = self.c.kill();
                let _ = self.c.wait();
            }
        }
    }
    let mut ws: Vec<W> = (0..nw).map(|w| {
        let c = spawn(&["worker".into(), prop.into(), tier.name().into(), bp.to_string_lossy().into_owned(), w.to_string(), tmp.join(format!("w{}.json", w)).to_string_lossy().into_owned()], 0);
        W { c, last: (0, 0), ticks: 0, since: Instant::now(), alive: true }
    }).collect();
    // (flat unit, seq, hung?) of cases in which a worker hung or died
    let mut lost: Vec<(usize, u64, bool)> = vec![];
    let cap = Duration::from_secs(std::env::var("KAMIMC_CAP_S").ok().and_then(|s| s.parse().ok()).unwrap_or(tier.pick(600, 6 * 3600)));
    let mut capped = false;
    loop {
        let mut any = false;
        for (w, p) in ws.iter_mut().enumerate() {
            if !p.alive {
                continue;
            }
            let s = slot(b, w);
            let at = (s[0].load(Relaxed), s[1].load(Relaxed));
            if let Some(st) = p.c.try_wait().unwrap() {
                p.alive = false;
                if st.code() == Some(70) {
                    eprintln!("error: a search space of {} is larger than planned", prop);
                    return 2;
                }
                if !st.success() || !tmp.join(format!("w{}.json", w)).exists() {
                    if at.0 == 0 {
                        eprintln!("error: a worker of {} ended with {} outside any case", prop, st);
                        return 2;
                    }
                    lost.push((at.0 as usize - 1, at.1, false));
                    b[1].store(1, Relaxed);
                }
                continue;
            }
            any = true;
            let t = cpu_ticks(p.c.id()).unwrap_or(0);
            if at != p.last {
                p.last = at;
                p.ticks = t;
                p.since = Instant::now();
            } else if at.0 != 0 && (t.saturating_sub(p.ticks) > HANG_TICKS || p.since.elapsed() > HANG_WALL) {
                let _ = p.c.kill();
                let _ = p.c.wait();
                p.alive = false;
                lost.push((at.0 as usize - 1, at.1, true));
                b[1].store(1, Relaxed);
            }
        }
        if !any {
            break;
        }
        if start.elapsed() > cap && !capped {
            capped = true;
            b[1].store(1, Relaxed);
        }
        std::thread::sleep(Duration::from_millis(10));
    }

    // ---- gather
    let mut tot: BTreeMap<&str, u64> = BTreeMap::new();
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: BTreeMap<String, String> = BTreeMap::new();
    let mut known: BTreeMap<String, u64> = BTreeMap::new();
    let mut violations: Vec<Value> = vec![];
    let mut doms: BTreeMap<usize, (u64, u64)> = BTreeMap::new();
    for w in 0..nw {
        let r: Value = match fs::read(tmp.join(format!("w{}.json", w))).ok().and_then(|x| serde_json::from_slice(&x).ok()) {
            Some(r) => r,
            None => continue,
        };
        for k in ["evaluations", "nontrivial", "states", "transitions", "traces"].iter() {
            *tot.entry(k).or_insert(0) += r[*k].as_u64().unwrap_or(0);
        }
        for (k, v) in r["classes"].as_object().unwrap() {
            *classes.entry(k.clone()).or_insert(0) += v.as_u64().unwrap();
        }
        for (k, v) in r["known"].as_object().unwrap() {
            *known.entry(k.clone()).or_insert(0) += v.as_u64().unwrap();
        }
        for (k, v) in r["samples"].as_object().unwrap() {
            samples.entry(k.clone()).or_insert(v.as_str().unwrap().to_string());
        }
        violations.extend(r["violations"].as_array().unwrap().iter().cloned().map(|mut v| { v["worker"] = json!(w); v }));
        for e in r["doms"].as_array().unwrap() {
            let x = doms.entry(e[0].as_u64().unwrap() as usize).or_insert((0, 0));
            x.0 += e[1].as_u64().unwrap();
            x.1 += e[2].as_u64().unwrap();
        }
    }
    violations.sort_by_key(|v| (v["dom"].as_u64(), v["unit"].as_u64(), v["seq"].as_u64()));

    // ---- confirm every kind of failure in a fresh process before believing it
    let mut confirmed: Option<Value> = None;
    if !violations.is_empty() {
        // (the code under test may be nondeterministic, for example through hash maps, so try more than once)
        let mut tries = 0;
        'found: for v in violations.iter().take(8) {
            let (d, u, n) = (v["dom"].as_u64().unwrap() as usize, v["unit"].as_u64().unwrap() as usize, v["seq"].as_u64().unwrap());
            for attempt in 0..8 {
                tries += 1;
                if let (Some(r), _) = replay_process(prop, tier, d, u, Mode::Only(n), &[], attempt, tmp) {
                    if r["violations"].as_array().map_or(false, |a| !a.is_empty()) {
                        confirmed = Some(r["violations"][0].clone());
                        break 'found;
                    }
                }
            }
        }
        // The case alone passes. If the code under test keeps something from one call to the next, the same calls as
        // before, in the same order, must lead to the same failure in a fresh process: first those of the unit, then
        // all of those that the worker had executed.
        if confirmed.is_none() {
            'found2: for v in violations.iter().take(3) {
                let (d, u, n) = (v["dom"].as_u64().unwrap() as usize, v["unit"].as_u64().unwrap() as usize, v["seq"].as_u64().unwrap());
                let full: Vec<usize> = fs::read_to_string(tmp.join(format!("w{}.trail", v["worker"]))).unwrap_or_default()
                    .lines().filter_map(|l| l.parse().ok()).take_while(|&i: &usize| all[i] != (d, u)).collect();
                for trail in &[vec![], full] {
                    if let (Some(r), _) = replay_process(prop, tier, d, u, Mode::Through(n), trail, 0, tmp) {
                        if r["violations"].as_array().map_or(false, |a| !a.is_empty()) {
                            let mut v = r["violations"][0].clone();
                            let m = format!("{} (only after the preceding calls of the same process: the result depends on earlier calls)", v["message"].as_str().unwrap_or(""));
                            v["message"] = json!(m);
                            v["mode"] = json!("through");
                            v["trail"] = json!(trail);
                            confirmed = Some(v);
                            break 'found2;
                        }
                    }
                }
            }
        }
        if confirmed.is_none() {
            eprintln!("error: {} case {} did not reproduce in a fresh process ({} attempts)", prop, violations[0], tries);
            return 2;
        }
    } else if let Some(&(i, n, hung)) = lost.iter().min() {
        let (d, u) = all[i];
        let (r, hung2) = replay_process(prop, tier, d, u, Mode::Only(n), &[], 0, tmp);
        if let Some(v) = r.as_ref().and_then(|r| r["violations"].get(0)) {
            confirmed = Some(v.clone());
        } else if r.is_some() && hung {
            // slow, not stuck: what was explored stands, but it is not everything
            eprintln!("note: a worker of {} was stopped in domain {} unit {} case {}, which takes long", prop, d, u, n);
        } else if r.is_some() {
            eprintln!("error: a worker of {} died in domain {} unit {} case {}, but the case alone does not", prop, d, u, n);
            return 2;
        } else {
            let (ds, _) = replay_process(prop, tier, d, u, Mode::Describe(n), &[], 0, tmp);
            let desc = ds.and_then(|x| x["described"].as_str().map(String::from)).unwrap_or_else(|| "(could not be described)".into());
            let msg = if hung2 { "the code under test does not terminate" } else { "the code under test crashed the process" };
            confirmed = Some(json!({"dom": d, "unit": u, "seq": n, "case": desc, "message": msg}));
        }
    }

    let exhaustive = confirmed.is_none() && !capped && doms.values().map(|x| x.0).sum::<u64>() == all.len() as u64;
    let g = |k: &str| *tot.get(k).unwrap_or(&0);
    let mut cov = serde_json::Map::new();
    if plan.level == "model_checking" {
        cov.insert("states".into(), json!(g("states")));
        cov.insert("transitions".into(), json!(g("transitions")));
        cov.insert("traces_validated_against_impl".into(), json!(g("traces")));
        cov.insert("explanation".into(), json!(plan.rule));
    } else {
        cov.insert("evaluations".into(), json!(g("evaluations")));
        cov.insert("distinct_nontrivial".into(), json!(g("nontrivial")));
        cov.insert("rule".into(), json!(plan.rule));
    }
    cov.insert("exhaustive".into(), json!(exhaustive));
    let mut outc = BTreeMap::new();
    for (k, v) in &classes {
        let (d, c) = k.split_once('/').unwrap();
        outc.insert(format!("{}: {}", plan.doms[d.parse::<usize>().unwrap()].name, c), *v);
    }
    cov.insert("outcomes".into(), json!(outc));
    cov.insert("domains".into(), Value::Array(plan.doms.iter().enumerate().map(|(d, x)| {
        let (u, e) = doms.get(&d).cloned().unwrap_or((0, 0));
        json!({"name": x.name, "bound": x.bound, "units": x.units, "units_done": u, "cases": e})
    }).collect()));
    let mut sm: Vec<String> = samples.iter().map(|(k, v)| {
        let (d, c) = k.split_once('/').unwrap();
        let t: String = v.chars().take(600).collect();
        format!("[{}: {}] {}", plan.doms[d.parse::<usize>().unwrap()].name, c, t)
    }).collect();
    sm.truncate(24);
    cov.insert("samples".into(), json!(sm));
    let nviol = if confirmed.is_some() { 1 } else { 0 };
    let ev = json!({
        "property": prop, "tier": tier.name(), "seed": seed, "level": plan.level, "coverage": cov,
        "assumptions": plan.assumptions, "wall_s": (start.elapsed().as_millis() as f64) / 1000.0, "violations": nviol,
    });
    let evd = verif_dir().join("evidence");
    let _ = fs::create_dir_all(&evd);
    fs::write(evd.join(format!("{}.json", prop)), serde_json::to_vec_pretty(&ev).unwrap()).expect("evidence file");

    let so = std::io::stdout();
    let mut so = so.lock();
    let what = known_for(prop);
    for (k, n) in &known {
        let w = what.iter().find(|x| &x.0 == k).map(|x| x.1.as_str()).unwrap_or("");
        let _ = writeln!(so, "KNOWN-FINDING: property={} {} ({} cases)", prop, w, n);
    }
    if let Some(v) = confirmed {
        let rd = verif_dir().join("replays");
        let _ = fs::create_dir_all(&rd);
        let path = rd.join(format!("{}-{}-{}-{}-{}.json", prop, tier.name(), v["dom"], v["unit"], v["seq"]));
        let d = v["dom"].as_u64().unwrap() as usize;
        let rep = json!({"property": prop, "tier": tier.name(), "dom": d, "domain": plan.doms[d].name, "unit": v["unit"],
            "seq": v["seq"], "case": v["case"], "message": v["message"], "mode": v["mode"], "trail": v["trail"],
            "replay_cmd": format!("./check --replay {}", path.display())});
        fs::write(&path, serde_json::to_vec_pretty(&rep).unwrap()).expect("replay file");
        let _ = writeln!(so, "{} [{}]\n  case: {}\n  {}", prop, plan.doms[d].name, v["case"].as_str().unwrap_or(""), v["message"].as_str().unwrap_or(""));
        let _ = writeln!(so, "VIOLATION property={} replay={}", prop, path.display());
        return 1;
    }
    let _ = writeln!(so, "{} {}: {} evaluations ({} states, {} transitions, {} replayed histories), {} non-trivial, exhaustive={} in {:.1}s",
        prop, tier.name(), g("evaluations"), g("states"), g("transitions"), g("traces"), g("nontrivial"), exhaustive, start.elapsed().as_secs_f64());
    0
}

pub fn replay_cmd(path: &str, plan_for: &dyn Fn(&str, Tier) -> Plan) -> i32 {
    let v: Value = serde_json::from_slice(&fs::read(path).expect("replay file")).expect("replay file is JSON");
    let prop = v["property"].as_str().unwrap();
    let tier = if v["tier"] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let _ = plan_for;
    let tmp = std::env::temp_dir().join(format!("kamimc-replay-{}", std::process::id()));
    fs::create_dir_all(&tmp).unwrap();
    let mut result = (None, false);
    let trail: Vec<usize> = v["trail"].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).map(|x| x as usize).collect()).unwrap_or_default();
    let n = v["seq"].as_u64().unwrap();
    let (mode, hashes) = if v["mode"] == "through" { (Mode::Through(n), 1) } else { (Mode::Only(n), 8) };
    for hash in 0..hashes {
        result = replay_process(prop, tier, v["dom"].as_u64().unwrap() as usize, v["unit"].as_u64().unwrap() as usize, mode, &trail, hash, &tmp);
        if result.0.as_ref().map_or(true, |r| r["violations"].as_array().map_or(false, |a| !a.is_empty())) { break; }
    }
    let (r, hung) = result;
    let _ = fs::remove_dir_all(&tmp);
    match r {
        Some(r) if r["violations"].as_array().map_or(false, |a| a.is_empty()) => {
            println!("{}: the case now passes\n  case: {}", prop, v["case"].as_str().unwrap_or(""));
            0
        }
        Some(r) => {
            println!("{}\n  case: {}\n  {}", prop, r["violations"][0]["case"].as_str().unwrap_or(""), r["violations"][0]["message"].as_str().unwrap_or(""));
            println!("VIOLATION property={} replay={}", prop, path);
            1
        }
        None => {
            println!("{}\n  case: {}\n  {}", prop, v["case"].as_str().unwrap_or(""), if hung { "does not terminate" } else { "crashes" });
            println!("VIOLATION property={} replay={}", prop, path);
            1
        }
    }
}
