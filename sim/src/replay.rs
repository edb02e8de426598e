//! Single runs: executing, writing down, replaying and minimising them.

use crate::ds::*;
use crate::gen;
use crate::pool::*;
use crate::{elem, ptr};
use serde_json::{json, Value};
use simrt::{Rng, RtConfig, RunResult, Sched, Switch, SITE_NAMES};
use std::cell::RefCell;
use std::path::Path;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::Mutex;
use std::rc::Rc;
use std::time::{Duration, Instant};

fn rt_config(s: &Spec, sched: Sched) -> RtConfig {
    RtConfig {
        sched,
        stack_size: s.stack_size,
        stack_limit: s.stack_limit,
        max_steps: 250_000_000,
        max_alloc: s.max_alloc,
        preempt_scale: s.preempt_scale,
    }
}

/// One run on this OS thread (which must not be used again when it found a violation).
pub fn run_here(s: &Spec, sched: Sched, trace: bool) -> (RunResult, Cov, Vec<(u32, u8)>) {
    ptr::reset(false);
    elem::reset(s.conf.hmode, s.conf.hseed);
    elem::set_env_seed(s.env_seed);
    let cov = Rc::new(RefCell::new(Cov::default()));
    let c = cov.clone();
    let spec = s.clone();
    let cfg = rt_config(s, sched);
    let (r, t) = simrt::run_traced(cfg, move || main_task(spec, c), trace);
    let c = cov.borrow().clone();
    std::mem::forget(cov);
    (r, c, t)
}

/// One run on an OS thread of its own.
pub fn run_apart(s: &Spec, sched: Sched, trace: bool) -> (RunResult, Cov, Vec<(u32, u8)>) {
    let t = s.clone();
    let sch = sched.clone();
    let (mut r, c, t) =
        std::thread::Builder::new().stack_size(4 << 20).spawn(move || run_here(&t, sch, trace)).unwrap().join().unwrap();
    differ(s, &sched, &mut r);
    (r, c, t)
}

/// The runs that one process executed before a run, by property, seed and number.
#[derive(Clone, Default)]
pub struct Before {
    pub prop: String,
    pub vseed: u64,
    pub runs: Vec<u64>,
}

/// One run on an OS thread of its own, which executes others before it.
fn run_after(b: &Before, s: &Spec, sched: Sched, trace: bool) -> (RunResult, Cov, Vec<(u32, u8)>) {
    if b.runs.is_empty() {
        return run_apart(s, sched, trace);
    }
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(4 << 20)
            .spawn_scoped(sc, || {
                for i in &b.runs {
                    let t = gen::spec(&b.prop, b.vseed, *i);
                    let how = Sched::Seeded(sched_seed(&b.prop, b.vseed, *i));
                    let (mut r, c, x) = if t.conf.rnd { run_apart(&t, how, false) } else { run_here(&t, how, false) };
                    if r.violation.take().is_some() {
                        return (r, c, x);
                    }
                }
                if s.conf.rnd { run_apart(s, sched, trace) } else { run_here(s, sched, trace) }
            })
            .unwrap()
            .join()
            .unwrap()
    })
}

// --- the other build (C21) ----------------------------------------------------------------------

/// A process of the build with the standard library, which executes the same runs on request.
struct Other {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}
static OTHER: Mutex<Option<Other>> = Mutex::new(None);

fn other(req: &str) -> Option<Value> {
    // A process that found something wrong ends after its answer; hence a second attempt.
    ask(req).or_else(|| ask(req)).or_else(|| Some(json!({"violation": {"class": "crash"}, "log_hash": ""})))
}

fn ask(req: &str) -> Option<Value> {
    let bin = std::env::var_os("VERIF_OTHER_BUILD")?;
    let mut o = OTHER.lock().unwrap_or_else(|e| e.into_inner());
    if o.is_none() {
        let mut child = Command::new(bin)
            .arg("serve")
            .env_remove("VERIF_OTHER_BUILD")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("cannot start the other build");
        let (to, from) = (child.stdin.take().unwrap(), BufReader::new(child.stdout.take().unwrap()));
        *o = Some(Other { child, to, from });
    }
    let p = o.as_mut().unwrap();
    let mut line = String::new();
    let sent = p.to.write_all(req.as_bytes()).and_then(|()| p.to.write_all(b"\n")).and_then(|()| p.to.flush());
    let got = sent.and_then(|()| p.from.read_line(&mut line)).unwrap_or(0);
    if got == 0 {
        let mut p = o.take().unwrap();
        let _ = p.child.kill();
        let _ = p.child.wait();
        return None;
    }
    serde_json::from_str(&line).ok()
}

/// Where another build is there to compare with: a violation is a difference from it, and nothing else.
pub fn differ(s: &Spec, sched: &Sched, r: &mut RunResult) {
    if std::env::var_os("VERIF_OTHER_BUILD").is_none() {
        return;
    }
    let how = match sched {
        Sched::Seeded(x) => How::Seed(*x),
        Sched::Replay(v) => How::Switches(v.clone()),
    };
    let v = other(&Case { spec: s.clone(), how, before: Before::default() }.json().to_string()).expect("no answer from the other build");
    let theirs = v["violation"]["class"].as_str();
    let ours = r.violation.as_ref().map(|x| x.class.as_str());
    let label = r.violation.as_ref().map_or(0, |x| x.label);
    let log = format!("{:016x}", r.log_hash);
    let msg = if theirs != ours {
        let tell = |m: Option<String>| m.unwrap_or_else(|| "nothing wrong".into());
        let a = r.violation.as_ref().map(|x| format!("{}: {}", x.class, x.msg));
        let b = theirs.map(|c| format!("{c}: {}", v["violation"]["msg"].as_str().unwrap_or("")));
        Some(format!("without std: {}; with std: {}", tell(a), tell(b)))
    } else if !s.conf.rnd && v["log_hash"] != log.as_str() {
        Some("the sequences of pointer operations and callbacks differ".into())
    } else {
        None
    };
    let task = r.violation.as_ref().map_or(0, |x| x.task);
    r.violation = msg.map(|msg| simrt::Violation { class: "std-difference".into(), msg, label, task });
}

/// Executes runs given one per line.
pub fn serve() -> i32 {
    let mut line = String::new();
    let mut input = std::io::stdin().lock();
    let (tx, rx) = std::sync::mpsc::channel::<(Spec, Sched)>();
    let (btx, brx) = std::sync::mpsc::channel::<(String, bool)>();
    let start = move || {
        std::thread::Builder::new()
            .stack_size(4 << 20)
            .spawn(move || {
                while let Ok((s, sched)) = rx.recv() {
                    let (r, _, _) = run_here(&s, sched, false);
                    let _ = btx.send((result_json(&r, false).to_string(), r.violation.is_some()));
                }
            })
            .unwrap();
    };
    start();
    loop {
        line.clear();
        if input.read_line(&mut line).unwrap_or(0) == 0 {
            return 0;
        }
        let (_, s, sched) = parse(serde_json::from_str(&line).expect("bad request"));
        let (text, bad) = if s.conf.rnd {
            let (r, _, _) = run_apart(&s, sched, false);
            (result_json(&r, false).to_string(), false)
        } else {
            let _ = tx.send((s, sched));
            match brx.recv() {
                Ok(t) => t,
                Err(_) => return 0,
            }
        };
        println!("{text}");
        if bad {
            // The state of that thread cannot be trusted any more; whoever asks starts another process.
            return 0;
        }
    }
}

pub fn sched_seed(prop: &str, vseed: u64, i: u64) -> u64 {
    simrt::mix(gen::run_seed(prop, vseed, i) ^ 0x5c4ed)
}

// --- as text ----------------------------------------------------------------------------------

pub fn spec_json(s: &Spec) -> Value {
    json!({
        "conf": {
            "family": format!("{:?}", s.conf.fam), "pointer": format!("{:?}", s.conf.kind), "random_state": s.conf.rnd,
            "hash_mode": s.conf.hmode, "hash_seed": s.conf.hseed.to_string(), "degree": s.conf.degree, "bits": s.conf.bits,
        },
        "flags": s.flags, "slots": s.slots, "dom": s.dom, "env_seed": s.env_seed.to_string(),
        "stack_size": s.stack_size, "stack_limit": s.stack_limit, "max_alloc": s.max_alloc,
        "preempt_scale": s.preempt_scale, "workers": s.workers,
        "ops": s.ops.iter().map(|o| json!({
            "op": OP_NAMES[o.kind as usize], "phase": o.phase, "task": o.task, "s": o.s, "d": o.d, "code": o.code,
            "a": o.a, "b": o.b, "fault_nth": o.nth,
            "fault_at": (0..simrt::NSITES).filter(|i| o.mask & 1 << i != 0).map(|i| SITE_NAMES[i]).collect::<Vec<_>>(),
        })).collect::<Vec<_>>(),
    })
}

pub fn spec_from(v: &Value) -> Spec {
    let n = |v: &Value| -> u64 {
        v.as_u64().or_else(|| v.as_str().and_then(|s| s.parse().ok())).unwrap_or_else(|| panic!("number expected: {v}"))
    };
    let c = &v["conf"];
    let fam = *FAMS.iter().find(|f| format!("{f:?}") == c["family"].as_str().unwrap()).unwrap();
    let kind = *KINDS.iter().find(|k| format!("{k:?}") == c["pointer"].as_str().unwrap()).unwrap();
    Spec {
        conf: Conf {
            fam,
            kind,
            rnd: c["random_state"].as_bool().unwrap(),
            hmode: n(&c["hash_mode"]) as u8,
            hseed: n(&c["hash_seed"]),
            degree: n(&c["degree"]) as u8,
            bits: n(&c["bits"]) as u8,
        },
        flags: n(&v["flags"]) as u32,
        slots: n(&v["slots"]) as u8,
        dom: n(&v["dom"]) as u32,
        env_seed: n(&v["env_seed"]),
        stack_size: n(&v["stack_size"]) as usize,
        stack_limit: n(&v["stack_limit"]) as usize,
        max_alloc: n(&v["max_alloc"]) as usize,
        preempt_scale: n(&v["preempt_scale"]),
        workers: n(&v["workers"]) as usize,
        ops: v["ops"]
            .as_array()
            .unwrap()
            .iter()
            .map(|o| Op {
                kind: OP_NAMES.iter().position(|x| Some(*x) == o["op"].as_str()).unwrap() as u8,
                phase: n(&o["phase"]) as u8,
                task: n(&o["task"]) as u8,
                s: n(&o["s"]) as u8,
                d: n(&o["d"]) as u8,
                code: n(&o["code"]) as u8,
                a: n(&o["a"]) as u32,
                b: n(&o["b"]) as u32,
                nth: n(&o["fault_nth"]) as u32,
                mask: o["fault_at"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|x| 1u32 << SITE_NAMES.iter().position(|y| Some(*y) == x.as_str()).unwrap())
                    .sum(),
            })
            .collect(),
    }
}

pub fn switches_json(s: &[Switch]) -> Value {
    Value::Array(s.iter().map(|x| json!([x.0, x.1, x.2])).collect())
}
fn switches_from(v: &Value) -> Vec<Switch> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|x| (x[0].as_u64().unwrap() as u32, x[1].as_u64().unwrap(), x[2].as_u64().unwrap() as u32))
        .collect()
}

pub fn result_json(r: &RunResult, with_switches: bool) -> Value {
    let mut v = json!({
        "violation": r.violation.as_ref().map(|v| json!({"class": v.class, "msg": v.msg, "label": v.label})),
        "log_hash": format!("{:016x}", r.log_hash),
        "steps": r.stats.steps,
        "max_stack": r.stats.max_stack,
        "faults_fired": (0..simrt::NSITES).filter(|i| r.stats.fired[*i] > 0).map(|i| (SITE_NAMES[i].to_string(), json!(r.stats.fired[i]))).collect::<serde_json::Map<_, _>>(),
    });
    if with_switches {
        v["switches"] = switches_json(&r.switches);
    }
    v
}

// --- commands ---------------------------------------------------------------------------------

fn before(v: &Value) -> Before {
    let b = &v["after_the_runs"];
    Before {
        prop: b["property"].as_str().unwrap_or("").into(),
        vseed: b["VERIF_SEED"].as_u64().unwrap_or(0),
        runs: b["runs"].as_array().map(|a| a.iter().filter_map(Value::as_u64).collect()).unwrap_or_default(),
    }
}

fn load(file: &str) -> (Value, Spec, Sched) {
    parse(serde_json::from_str(&std::fs::read_to_string(file).expect("cannot read the file")).expect("bad file"))
}

fn parse(v: Value) -> (Value, Spec, Sched) {
    let s = spec_from(&v["spec"]);
    let sched = match v.get("switches") {
        Some(Value::Array(_)) => Sched::Replay(switches_from(&v["switches"])),
        _ => Sched::Seeded(v["sched_seed"].as_str().unwrap().parse().unwrap()),
    };
    (v, s, sched)
}

pub fn exec(file: &str) -> i32 {
    let (v, s, sched) = load(file);
    let (r, _, _) = run_after(&before(&v), &s, sched, false);
    println!("{}", result_json(&r, true));
    0
}

pub fn one(prop: &str, vseed: u64, i: u64) -> i32 {
    let s = gen::spec(prop, vseed, i);
    let (r, c, _) = run_apart(&s, Sched::Seeded(sched_seed(prop, vseed, i)), false);
    let mut v = result_json(&r, true);
    v["overlapped"] = json!(c.overlapped);
    v["checks"] = json!(c.checks);
    println!("{v}");
    i32::from(r.violation.is_some())
}

/// Re-executes a replay file; exit code 1 when it shows the recorded violation again.
pub fn replay(file: &str) -> i32 {
    let (v, s, sched) = load(file);
    let prop = v["property"].as_str().unwrap_or("?").to_string();
    let expect = &v["expect"];
    if expect["class"] == "crash" || expect["class"] == "hang" {
        let r = sub_exec(Path::new(file), Duration::from_secs(45));
        println!("expected {}: got {}", expect["class"], r);
        return i32::from(r["violation"]["class"] == expect["class"]);
    }
    let (r, _, _) = run_after(&before(&v), &s, sched, false);
    match &r.violation {
        Some(x) => {
            println!("{}: {}", x.class, x.msg);
            let same = expect["class"] == x.class.as_str()
                && expect["msg"] == x.msg.as_str()
                && expect["log_hash"] == format!("{:016x}", r.log_hash);
            println!("VIOLATION property={prop} replay={file}");
            println!("{}", if same { "exactly as recorded" } else { "NOT exactly as recorded" });
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}

pub fn trace(file: &str) -> i32 {
    let (v, s, sched) = load(file);
    let (r, _, t) = run_after(&before(&v), &s, sched, true);
    for (task, site) in t.iter().rev().take(4000).rev() {
        println!("task {task}: {}", SITE_NAMES[*site as usize]);
    }
    println!("{}", result_json(&r, true));
    0
}

// --- executing in a process of its own ----------------------------------------------------------

/// Runs a command with a time limit; `Err(true)` when it hung, `Err(false)` when it crashed.
pub fn sub(args: &[&str], limit: Duration) -> Result<String, (bool, String)> {
    let exe = std::env::current_exe().unwrap();
    let mut ch = Command::new(exe)
        .args(args)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("cannot start a subprocess");
    let mut out = ch.stdout.take().unwrap();
    let h = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = std::io::Read::read_to_string(&mut out, &mut s);
        s
    });
    let t0 = Instant::now();
    let st = loop {
        if let Some(s) = ch.try_wait().unwrap() {
            break s;
        }
        if t0.elapsed() > limit {
            let _ = ch.kill();
            let _ = ch.wait();
            let _ = h.join();
            return Err((true, format!("no progress within {} s", limit.as_secs())));
        }
        std::thread::sleep(Duration::from_micros(if t0.elapsed().as_millis() < 50 { 300 } else { 5000 }));
    };
    let s = h.join().unwrap_or_default();
    match st.code() {
        Some(0 | 1) => Ok(s),
        _ => Err((false, format!("process ended with {st}"))),
    }
}

pub fn sub_json(args: &[&str], limit: Duration) -> Value {
    match sub(args, limit) {
        Ok(s) => serde_json::from_str(s.lines().last().unwrap_or("")).unwrap_or(Value::Null),
        Err((hung, msg)) => {
            json!({"violation": {"class": if hung { "hang" } else { "crash" }, "msg": msg, "label": 0}, "log_hash": "", "switches": null})
        }
    }
}
pub fn sub_exec(file: &Path, limit: Duration) -> Value {
    sub_json(&["exec", file.to_str().unwrap()], limit)
}

// --- minimising ---------------------------------------------------------------------------------

#[derive(Clone)]
pub enum How {
    Seed(u64),
    Switches(Vec<Switch>),
}
#[derive(Clone)]
pub struct Case {
    pub spec: Spec,
    pub how: How,
    /// Matters only to state that outlives a run.
    pub before: Before,
}
impl Case {
    pub fn json(&self) -> Value {
        let mut v = json!({ "spec": spec_json(&self.spec) });
        match &self.how {
            How::Seed(s) => v["sched_seed"] = json!(s.to_string()),
            How::Switches(s) => v["switches"] = switches_json(s),
        }
        if !self.before.runs.is_empty() {
            v["after_the_runs"] =
                json!({"property": self.before.prop, "VERIF_SEED": self.before.vseed, "runs": self.before.runs});
        }
        v
    }
}

pub struct Min<'a> {
    pub scratch: &'a Path,
    pub class: String,
    pub label: u64,
    pub end: Instant,
    pub tried: u64,
    pub limit: Duration,
}

impl Min<'_> {
    fn attempt(&mut self, c: &Case) -> Option<(Case, Value)> {
        self.tried += 1;
        std::fs::write(self.scratch, c.json().to_string()).ok()?;
        let v = sub_exec(self.scratch, self.limit);
        if v["violation"]["class"] != self.class.as_str() {
            return None;
        }
        let mut c2 = c.clone();
        if v["switches"].is_array() {
            c2.how = How::Switches(switches_from(&v["switches"]));
        }
        Some((c2, v))
    }

    /// The smaller specification under the old schedule, under none, and under a few others.
    fn variants(&mut self, old: &Case, spec: Spec, more: u64) -> Option<(Case, Value)> {
        if Instant::now() > self.end {
            return None;
        }
        let mut hows = vec![How::Switches(Vec::new()), old.how.clone()];
        for k in 0..more {
            hows.push(How::Seed(simrt::mix(k + 77)));
        }
        for how in hows {
            if Instant::now() > self.end {
                return None;
            }
            if let Some(x) = self.attempt(&Case { spec: spec.clone(), how, before: old.before.clone() }) {
                return Some(x);
            }
        }
        None
    }

    pub fn run(&mut self, case: Case) -> (Case, Value) {
        let Some((mut best, mut val)) = self.attempt(&case) else {
            return (case, Value::Null);
        };
        // Fewer operations.
        let mut chunk = best.spec.ops.len().div_ceil(2).max(1);
        loop {
            let mut i = 0;
            let mut any = false;
            while i < best.spec.ops.len() {
                let mut s = best.spec.clone();
                let j = (i + chunk).min(s.ops.len());
                s.ops.drain(i..j);
                let more = if chunk <= 2 { 6 } else { 2 };
                if let Some((c, v)) = self.variants(&best, s, more) {
                    best = c;
                    val = v;
                    any = true;
                } else {
                    i += chunk;
                }
                if Instant::now() > self.end {
                    break;
                }
            }
            if Instant::now() > self.end || chunk == 1 && !any {
                break;
            }
            if chunk > 1 {
                chunk = chunk.div_ceil(2);
            }
        }
        // Simpler operations and configuration.
        type Tweak = fn(&mut Spec, usize) -> bool;
        let per_op: &[Tweak] = &[
            |s, i| std::mem::replace(&mut s.ops[i].mask, 0) != 0,
            |s, i| {
                let o = &mut s.ops[i];
                let c = matches!(o.kind, FILL | COLLECT | EXTEND | DE | BURST) && o.a > 0;
                o.a /= if c { 2 } else { 1 };
                c
            },
            |s, i| {
                let o = &mut s.ops[i];
                let c = matches!(o.kind, FILL | COLLECT | EXTEND | DE | BURST) && o.a > 0;
                o.a -= u32::from(c);
                c
            },
            |s, i| {
                let o = &mut s.ops[i];
                let c = o.nth > 0;
                o.nth /= 2;
                c
            },
            |s, i| std::mem::replace(&mut s.ops[i].task, 0) != 0,
            |s, i| std::mem::replace(&mut s.ops[i].s, 0) != 0,
            |s, i| {
                let o = &mut s.ops[i];
                let c = o.a > 8;
                o.a %= 8;
                c && matches!(o.kind, DERIVE | MUTC | MUTO | QUERY)
            },
        ];
        for t in per_op {
            let mut i = 0;
            while i < best.spec.ops.len() {
                let mut s = best.spec.clone();
                if t(&mut s, i) {
                    if let Some((c, v)) = self.variants(&best, s, 2) {
                        best = c;
                        val = v;
                        continue;
                    }
                }
                i += 1;
            }
        }
        let whole: &[fn(&mut Spec) -> bool] = &[
            |s| std::mem::replace(&mut s.conf.hmode, 0) != 0,
            |s| std::mem::replace(&mut s.conf.bits, 0) != 0,
            |s| std::mem::replace(&mut s.conf.degree, 0) != 0,
            |s| std::mem::replace(&mut s.slots, 2) > 2,
            |s| std::mem::replace(&mut s.workers, 2) > 2,
            |s| {
                let d = s.dom;
                s.dom = (d / 2).max(4);
                s.dom < d
            },
        ];
        for t in whole {
            let mut s = best.spec.clone();
            if t(&mut s) {
                if let Some((c, v)) = self.variants(&best, s, 2) {
                    best = c;
                    val = v;
                }
            }
        }
        // Fewer runs before it.
        let mut chunk = best.before.runs.len().div_ceil(2);
        while chunk > 0 && !best.before.runs.is_empty() && Instant::now() < self.end {
            let mut i = 0;
            while i < best.before.runs.len() && Instant::now() < self.end {
                let mut c = best.clone();
                let j = (i + chunk).min(c.before.runs.len());
                c.before.runs.drain(i..j);
                match self.attempt(&c) {
                    Some((c, v)) => {
                        best = c;
                        val = v;
                    }
                    None => i += chunk,
                }
            }
            chunk = if chunk == 1 { 0 } else { chunk.div_ceil(2) };
        }
        // Fewer switches.
        if let How::Switches(sw) = best.how.clone() {
            let mut sw = sw;
            let mut chunk = sw.len().div_ceil(2).max(1);
            while !sw.is_empty() && Instant::now() < self.end {
                let mut i = 0;
                let mut any = false;
                while i < sw.len() && Instant::now() < self.end {
                    let mut c = sw.clone();
                    let j = (i + chunk).min(c.len());
                    c.drain(i..j);
                    let cand = Case { spec: best.spec.clone(), how: How::Switches(c.clone()), before: best.before.clone() };
                    if let Some((_, v)) = self.attempt(&cand) {
                        // Keep the request, not what was recorded: recorded switches include forced ones.
                        sw = c;
                        best.how = How::Switches(sw.clone());
                        val = v;
                        any = true;
                    } else {
                        i += chunk;
                    }
                }
                if chunk == 1 && !any {
                    break;
                }
                if chunk > 1 {
                    chunk = chunk.div_ceil(2);
                }
            }
        }
        (best, val)
    }
}

pub fn fresh_rng(x: u64) -> Rng {
    Rng::new(x)
}
