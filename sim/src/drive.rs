//! The search itself: worker processes over disjoint run numbers, and what is reported about it.

use crate::gen;
use crate::pool::*;
use crate::replay::*;
use serde_json::{json, Value};
use simrt::{mix, Sched, Stats, NSITES, SITE_NAMES};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

const QUICK_SECS: u64 = 30;
const HANG_SECS: u64 = 60;

/// Runs of the quick tier, chosen so that they take about half a minute on eight cores.
fn quick_runs(prop: &str) -> u64 {
    match prop {
        "C09" => 1_000,
        _ => 400_000,
    }
}

fn root() -> PathBuf {
    std::env::var_os("VERIF_ROOT").map_or_else(|| PathBuf::from("/verif"), PathBuf::from)
}

#[derive(Default)]
struct Totals {
    runs: u64,
    nontrivial: u64,
    concurrent: u64,
    faulted: u64,
    stats: Stats,
    cov: Cov,
    known: BTreeMap<String, u64>,
    log_hash: HashSet<u64>,
    sched_hash: HashSet<u64>,
    samples: Vec<Value>,
    recheck: (u64, u64),
    /// Milliseconds of the slowest run, and which run it was.
    slow: (u64, u64),
}

// --- known findings -----------------------------------------------------------------------------

struct Finding {
    id: String,
    prop: String,
    class: String,
    op: String,
    code: Option<u64>,
    families: Vec<String>,
    what: String,
}

/// `known-findings.txt`: entries without `"fixed"` name a failure that is listed, not reported.
fn findings(prop: &str) -> Vec<Finding> {
    let text = fs::read_to_string(root().join("known-findings.txt")).unwrap_or_default();
    text.lines()
        .filter(|l| l.starts_with('{'))
        .filter_map(|l| serde_json::from_str::<Value>(l).ok())
        .filter(|v| v["property"] == prop && v.get("class").is_some())
        .map(|v| Finding {
            id: v["id"].as_str().unwrap_or("").into(),
            prop: prop.into(),
            class: v["class"].as_str().unwrap_or("").into(),
            op: v["op"].as_str().unwrap_or("").into(),
            code: v["code"].as_u64(),
            families: v["families"].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(String::from)).collect()).unwrap_or_default(),
            what: v["what"].as_str().unwrap_or("").into(),
        })
        .collect()
}

fn matching<'a>(fs: &'a [Finding], v: &simrt::Violation, fam: crate::ds::Fam) -> Option<&'a Finding> {
    if v.label == 0 {
        return None;
    }
    let op = OP_NAMES[((v.label - 1) >> 8 & 0xff) as usize];
    let code = (v.label - 1) >> 16 & 1;
    fs.iter().find(|f| f.class == v.class && f.op == op && f.code.is_none_or(|c| c == code)
        && f.families.iter().any(|x| *x == format!("{fam:?}")))
}

// --- worker -------------------------------------------------------------------------------------

#[allow(clippy::too_many_arguments)]
pub fn worker(prop: &str, vseed: u64, start: u64, stride: u64, limit: u64, secs: u64, status: &str, out: &str) -> i32 {
    let st = fs::OpenOptions::new().write(true).create(true).truncate(false).open(status).unwrap();
    let known = findings(prop);
    let t0 = Instant::now();
    let mut tot = Totals::default();
    let mut i = start;
    let mut violation: Option<Value> = None;
    // Runs share an OS thread until one of them ends badly.
    while i < limit && t0.elapsed().as_secs() < secs && violation.is_none() {
        let (back, t, bad) = std::thread::scope(|sc| {
            std::thread::Builder::new()
                .stack_size(4 << 20)
                .spawn_scoped(sc, || {
                    let mut tot = Totals::default();
                    let mut i = i;
                    let mut n = 0u64;
                    let mut bad = None;
                    while i < limit && bad.is_none() {
                        if n % 16 == 0 && t0.elapsed().as_secs() >= secs {
                            break;
                        }
                        n += 1;
                        let _ = st.write_all_at(&(i + 1).to_le_bytes(), 0);
                        let spec = gen::spec(prop, vseed, i);
                        let sched = Sched::Seeded(sched_seed(prop, vseed, i));
                        let mut dirty = false;
                        let began = Instant::now();
                        let (r, c, _) = if spec.conf.rnd {
                            run_apart(&spec, sched, false)
                        } else {
                            let (mut r, c, t) = run_here(&spec, sched.clone(), false);
                            dirty = r.violation.is_some();
                            differ(&spec, &sched, &mut r);
                            (r, c, t)
                        };
                        let ms = began.elapsed().as_millis() as u64;
                        if ms > tot.slow.0 {
                            tot.slow = (ms, i);
                        }
                        tot.runs += 1;
                        tot.stats.add(&r.stats);
                        tot.cov.add(&c);
                        let fired: u64 = r.stats.fired.iter().sum();
                        tot.concurrent += u64::from(r.stats.switches > 0);
                        tot.faulted += u64::from(fired > 0);
                        if r.stats.switches > 0 || fired > 0 {
                            tot.nontrivial += 1;
                            tot.log_hash.insert(r.log_hash);
                        }
                        if r.stats.switches > 0 {
                            tot.sched_hash.insert(r.sched_hash);
                        }
                        if n == 1 || (tot.samples.len() < 2 && r.stats.switches > 0 && spec.ops.len() < 12) {
                            tot.samples.push(json!({"run": i, "spec": spec_json(&spec), "result": result_json(&r, false),
                                "switches": r.switches.len()}));
                        }
                        if n % 64 == 3 && r.violation.is_none() && !dirty {
                            // The same seed again: the event log has to be the same.
                            let sched = Sched::Seeded(sched_seed(prop, vseed, i));
                            let (r2, _, _) =
                                if spec.conf.rnd { run_apart(&spec, sched, false) } else { run_here(&spec, sched, false) };
                            tot.recheck.0 += 1;
                            if r2.log_hash != r.log_hash || r2.violation.is_some() {
                                tot.recheck.1 += 1;
                            }
                            if r2.violation.is_some() {
                                bad = Some((i, r2.violation.clone().unwrap()));
                            }
                        }
                        if let Some(v) = r.violation {
                            bad = Some((i, v));
                        }
                        i += stride;
                        if dirty {
                            break;
                        }
                    }
                    (i, tot, bad)
                })
                .unwrap()
                .join()
                .unwrap()
        });
        i = back;
        tot.add(t);
        if let Some((k, v)) = bad {
            match matching(&known, &v, gen::spec(prop, vseed, k).conf.fam) {
                Some(f) => *tot.known.entry(f.id.clone()).or_insert(0) += 1,
                None => violation = Some(json!({"run": k, "class": v.class, "msg": v.msg, "label": v.label})),
            }
        }
    }
    let mut f = fs::File::create(format!("{out}.hash")).unwrap();
    let mut buf = Vec::new();
    buf.extend((tot.log_hash.len() as u64).to_le_bytes());
    for h in tot.log_hash.iter().chain(tot.sched_hash.iter()) {
        buf.extend(h.to_le_bytes());
    }
    f.write_all(&buf).unwrap();
    let mut v = tot.json();
    v["violation"] = violation.unwrap_or(Value::Null);
    v["next"] = json!(i);
    fs::write(format!("{out}.json"), v.to_string()).unwrap();
    0
}

impl Totals {
    fn add(&mut self, o: Totals) {
        self.runs += o.runs;
        self.nontrivial += o.nontrivial;
        self.concurrent += o.concurrent;
        self.faulted += o.faulted;
        self.stats.add(&o.stats);
        self.cov.add(&o.cov);
        for (k, v) in o.known {
            *self.known.entry(k).or_insert(0) += v;
        }
        self.log_hash.extend(o.log_hash);
        self.sched_hash.extend(o.sched_hash);
        self.recheck.0 += o.recheck.0;
        self.recheck.1 += o.recheck.1;
        self.slow = self.slow.max(o.slow);
        if self.samples.len() < 3 {
            self.samples.extend(o.samples);
        }
    }
    fn json(&self) -> Value {
        let s = &self.stats;
        json!({
            "runs": self.runs, "nontrivial": self.nontrivial, "concurrent": self.concurrent, "faulted": self.faulted,
            "steps": s.steps, "switches": s.switches, "forced": s.forced, "tasks": s.tasks, "stalls": s.stalls,
            "site": s.site.to_vec(), "preempt": s.preempt.to_vec(), "fired": s.fired.to_vec(), "max_stack": s.max_stack, "slow": [self.slow.0, self.slow.1],
            "ops": self.cov.ops.to_vec(), "injected": self.cov.injected.to_vec(), "overlapped": self.cov.overlapped,
            "checks": self.cov.checks, "probes": self.cov.probes,
            "ratio": self.cov.ratio.iter().map(|(k, v)| (k.clone(), json!([v.0, v.1]))).collect::<serde_json::Map<_, _>>(),
            "known": self.known, "samples": self.samples, "recheck": [self.recheck.0, self.recheck.1],
        })
    }
}

/// Adds up numbers in objects and arrays; keeps the worst ratio; collects samples.
fn merge(a: &mut Value, b: &Value) {
    let Some(bo) = b.as_object() else { return };
    for (k, y) in bo {
        let x = &mut a[k.as_str()];
        if x.is_null() {
            *x = y.clone();
            continue;
        }
        match k.as_str() {
            "violation" | "next" => {}
            "slow" if y[0].as_u64() > x[0].as_u64() => *x = y.clone(),
            "slow" => {}
            "max_stack" => *x = json!(x.as_u64().unwrap().max(y.as_u64().unwrap())),
            "samples" => x.as_array_mut().unwrap().extend(y.as_array().unwrap().iter().cloned()),
            "ratio" => {
                for (r, v) in y.as_object().unwrap() {
                    let old = &mut x[r.as_str()];
                    let f = |v: &Value| v[0].as_f64().unwrap() / v[1].as_f64().unwrap().max(1.0);
                    if old.is_null() || f(v) > f(old) {
                        *old = v.clone();
                    }
                }
            }
            _ => match y {
                Value::Number(n) => *x = json!(x.as_u64().unwrap() + n.as_u64().unwrap()),
                Value::Array(v) => {
                    for (i, n) in v.iter().enumerate() {
                        x[i] = json!(x[i].as_u64().unwrap() + n.as_u64().unwrap());
                    }
                }
                Value::Object(o) => {
                    for (p, n) in o {
                        let old = x[p.as_str()].as_u64().unwrap_or(0);
                        x[p.as_str()] = json!(old + n.as_u64().unwrap());
                    }
                }
                _ => {}
            },
        }
    }
}

// --- parent -------------------------------------------------------------------------------------

struct W {
    ch: Child,
    status: PathBuf,
    out: PathBuf,
    seen: u64,
    when: Instant,
}

#[derive(Debug)]
struct Found {
    run: u64,
    class: String,
    msg: String,
    label: u64,
}

pub fn check(prop: &str, tier: &str) -> i32 {
    let t0 = Instant::now();
    if !gen::PROPS.contains(&prop) {
        eprintln!("unknown property {prop}");
        return 2;
    }
    let thorough = tier == "thorough";
    let vseed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let env = |k: &str| std::env::var(k).ok().and_then(|s| s.parse::<u64>().ok());
    let secs = env("VERIF_SECS").unwrap_or(if thorough { 720 } else if prop == "C09" { 60 } else { QUICK_SECS });
    let limit = env("VERIF_RUNS").unwrap_or(if thorough { u64::MAX / 4 } else { quick_runs(prop) });
    let nw = env("VERIF_WORKERS").unwrap_or(std::thread::available_parallelism().map_or(4, |n| n.get() as u64).clamp(1, 8));
    let root = root();
    let dir = root.join("replays");
    fs::create_dir_all(&dir).expect("cannot create the replay directory");
    let tmp = dir.join(format!("tmp-{prop}-{}", std::process::id()));
    fs::create_dir_all(&tmp).unwrap();
    let exe = std::env::current_exe().unwrap();
    let known = findings(prop);
    let start_worker = |k: u64, start: u64, gen: u64, secs: u64| -> W {
        let status = tmp.join(format!("s{k}-{gen}"));
        let out = tmp.join(format!("o{k}-{gen}"));
        let args: Vec<String> = [start, nw, limit, secs].iter().map(u64::to_string).collect();
        let ch = Command::new(&exe)
            .args(["worker", prop, &vseed.to_string()])
            .args(&args)
            .arg(&status)
            .arg(&out)
            .env("VERIF_ROOT", &root)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .expect("cannot start a worker");
        W { ch, status, out, seen: 0, when: Instant::now() }
    };
    let mut ws: Vec<Option<W>> = (0..nw).map(|k| Some(start_worker(k, k, 0, secs))).collect();
    let mut sum = json!({});
    let mut found: Option<Found> = None;
    let mut unconfirmed: Vec<Value> = Vec::new();
    let mut logs: HashSet<u64> = HashSet::new();
    let mut scheds: HashSet<u64> = HashSet::new();
    let mut gens = 0;
    while ws.iter().any(Option::is_some) {
        std::thread::sleep(Duration::from_millis(50));
        for k in 0..ws.len() {
            // One failure is enough, and confirming a hang takes long.
            if found.as_ref().is_some_and(|f| f.class == "hang" || f.class == "crash") {
                break;
            }
            let Some(w) = &mut ws[k] else { continue };
            let mut b = [0u8; 8];
            let at = fs::File::open(&w.status).and_then(|f| f.read_exact_at(&mut b, 0)).map(|()| u64::from_le_bytes(b)).unwrap_or(0);
            if at != w.seen {
                w.seen = at;
                w.when = Instant::now();
            }
            let ended = w.ch.try_wait().unwrap();
            let hung = ended.is_none() && w.when.elapsed().as_secs() > HANG_SECS;
            if ended.is_none() && !hung {
                continue;
            }
            if hung {
                let _ = w.ch.kill();
                let _ = w.ch.wait();
            }
            let ok = ended.is_some_and(|e| e.code() == Some(0));
            let (out, at) = (w.out.clone(), w.seen);
            ws[k] = None;
            if ok {
                let v: Value = fs::read_to_string(out.with_extension("json")).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or(json!({}));
                read_hashes(&PathBuf::from(format!("{}.hash", out.display())), &mut logs, &mut scheds);
                merge(&mut sum, &v);
                let x = &v["violation"];
                if x.is_object() {
                    let f = Found {
                        run: x["run"].as_u64().unwrap(),
                        class: x["class"].as_str().unwrap().into(),
                        msg: x["msg"].as_str().unwrap().into(),
                        label: x["label"].as_u64().unwrap(),
                    };
                    if found.as_ref().is_none_or(|g| f.run < g.run) {
                        found = Some(f);
                    }
                }
            } else if at > 0 {
                // The process died or stopped answering in run `at - 1`.
                let i = at - 1;
                let v = sub_json(&["one", prop, &vseed.to_string(), &i.to_string()], Duration::from_secs(45));
                let c = v["violation"]["class"].as_str().unwrap_or("").to_string();
                if !c.is_empty() {
                    found = Some(Found {
                        run: i,
                        class: c,
                        msg: v["violation"]["msg"].as_str().unwrap_or("").into(),
                        label: v["violation"]["label"].as_u64().unwrap_or(0),
                    });
                } else {
                    unconfirmed.push(json!({"run": i, "hung": hung}));
                    gens += 1;
                    let left = secs.saturating_sub(t0.elapsed().as_secs());
                    if left > 2 && unconfirmed.len() < 16 {
                        ws[k] = Some(start_worker(k as u64, i + nw, gens, left));
                    }
                }
            } else {
                unconfirmed.push(json!({"run": null, "hung": hung}));
            }
        }
        if found.is_some() {
            for w in ws.iter_mut().flatten() {
                let _ = w.ch.kill();
                let _ = w.ch.wait();
            }
            break;
        }
    }
    let search = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let mut replay_path = None;
    if let Some(f) = &found {
        let path = report(prop, vseed, nw, f, &dir, &tmp, env("VERIF_MIN_SECS").unwrap_or(if thorough { 180 } else { 60 }));
        println!("{}: {}", f.class, f.msg);
        println!("VIOLATION property={prop} replay={}", path.display());
        replay_path = Some(path);
        code = 1;
    }
    let hits = |id: &str| sum["known"][id].as_u64().unwrap_or(0);
    for f in &known {
        if hits(&f.id) > 0 {
            println!("KNOWN-FINDING: property={} {} [{}]", f.prop, f.what, f.id);
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let ev = evidence(prop, tier, vseed, &sum, wall, search, logs.len(), scheds.len(), &found, &replay_path, &unconfirmed, nw);
    let edir = root.join("evidence");
    let _ = fs::create_dir_all(&edir);
    fs::write(edir.join(format!("{prop}.json")), serde_json::to_string_pretty(&ev).unwrap()).expect("cannot write the evidence");
    let _ = fs::remove_dir_all(&tmp);
    println!(
        "{prop} {tier}: {} runs, {} simulated steps, {} checks, {:.1} s, exit {code}",
        sum["runs"], sum["steps"], sum["checks"], wall
    );
    code
}

fn read_hashes(p: &Path, logs: &mut HashSet<u64>, scheds: &mut HashSet<u64>) {
    let mut v = Vec::new();
    if fs::File::open(p).and_then(|mut f| f.read_to_end(&mut v)).is_err() || v.len() < 8 {
        return;
    }
    let n = u64::from_le_bytes(v[..8].try_into().unwrap()) as usize;
    for (i, c) in v[8..].chunks_exact(8).enumerate() {
        let h = u64::from_le_bytes(c.try_into().unwrap());
        if i < n {
            logs.insert(h);
        } else {
            scheds.insert(h);
        }
    }
}

fn report(prop: &str, vseed: u64, stride: u64, f: &Found, dir: &Path, tmp: &Path, secs: u64) -> PathBuf {
    let spec = gen::spec(prop, vseed, f.run);
    let mut whole =
        Case { spec: spec.clone(), how: How::Seed(sched_seed(prop, vseed, f.run)), before: Before::default() };
    let scratch = tmp.join("case.json");
    let slow = f.class == "hang";
    let mut m = Min {
        scratch: &scratch,
        class: f.class.clone(),
        label: f.label,
        end: Instant::now() + Duration::from_secs(secs),
        tried: 0,
        limit: Duration::from_secs(if slow { 10 } else { 30 }),
    };
    let (mut best, mut val) = m.run(whole.clone());
    if val.is_null() && f.class != "hang" && f.class != "crash" {
        // Not by itself, so something outlives a run: after the runs that the same process executed before.
        let mut n = 1;
        let end = Instant::now() + Duration::from_secs(secs);
        while val.is_null() && Instant::now() < end {
            let runs: Vec<u64> = (1..=n).filter_map(|k| f.run.checked_sub(k * stride)).rev().collect();
            let all = (runs.len() as u64) < n;
            whole.before = Before { prop: prop.into(), vseed, runs };
            m.end = m.end.max(Instant::now() + Duration::from_secs(secs / 2));
            (best, val) = m.run(whole.clone());
            if all {
                break;
            }
            n *= 2;
        }
        if val.is_null() {
            whole.before = Before::default();
        }
    }
    let tried = m.tried;
    let (best, val) = if val.is_null() { (whole, Value::Null) } else { (best, val) };
    let mut v = best.json();
    v["property"] = json!(prop);
    v["seed"] = json!({"VERIF_SEED": vseed, "run": f.run});
    v["expect"] = if val.is_null() {
        json!({"class": f.class, "msg": f.msg, "log_hash": ""})
    } else {
        json!({"class": val["violation"]["class"], "msg": val["violation"]["msg"], "log_hash": val["log_hash"]})
    };
    v["faults_fired"] = val["faults_fired"].clone();
    v["as_found"] = json!({"class": f.class, "msg": f.msg, "operations": spec.ops.len()});
    v["minimised"] = json!({"operations": best.spec.ops.len(), "switches": v["switches"].as_array().map(Vec::len), "candidates_tried": tried});
    v["how_to_replay"] = json!("/verif/check replay <this file>");
    let path = dir.join(format!("{prop}-{vseed}-{}.json", f.run));
    fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).expect("cannot write the replay file");
    let again = sub(&["replay", path.to_str().unwrap()], Duration::from_secs(90));
    let exact = again.as_ref().is_ok_and(|s| s.contains("exactly as recorded") && !s.contains("NOT exactly"));
    println!("replay file: {} operations, {} candidates tried, replays {}", best.spec.ops.len(), tried, if exact { "exactly" } else { "(crash or hang)" });
    path
}

#[allow(clippy::too_many_arguments)]
fn evidence(
    prop: &str,
    tier: &str,
    vseed: u64,
    sum: &Value,
    wall: f64,
    search: f64,
    logs: usize,
    scheds: usize,
    found: &Option<Found>,
    replay: &Option<PathBuf>,
    unconfirmed: &[Value],
    nw: u64,
) -> Value {
    let u = |k: &str| sum[k].as_u64().unwrap_or(0);
    let by_site = |k: &str| -> Value {
        let mut m = serde_json::Map::new();
        for i in 0..NSITES.min(SITE_NAMES.len()) {
            let n = sum[k][i].as_u64().unwrap_or(0);
            if n > 0 {
                m.insert(SITE_NAMES[i].into(), json!(n));
            }
        }
        Value::Object(m)
    };
    let by_op = |k: &str| -> Value {
        let mut m = serde_json::Map::new();
        for i in 0..NOPS {
            let n = sum[k][i].as_u64().unwrap_or(0);
            if n > 0 {
                m.insert(OP_NAMES[i].into(), json!(n));
            }
        }
        Value::Object(m)
    };
    let mut samples: Vec<Value> = sum["samples"].as_array().cloned().unwrap_or_default();
    samples.sort_by_key(|s| s["run"].as_u64());
    samples.truncate(3);
    let hours = (search / 3600.0).max(1e-9);
    json!({
        "property": prop, "tier": tier, "seed": vseed, "level": "exploration",
        "coverage": {
            "evaluations": u("runs"),
            "distinct_nontrivial": logs,
            "rule": "One evaluation is one simulated run, its configuration, operations, faults and schedule all drawn from (VERIF_SEED, property, run number). A run is non-trivial when the scheduler preempted a thread in the middle of an operation at least once or an injected fault fired; two runs are distinct when the hashes of their complete event logs (thread, site, operation) differ.",
            "samples": samples,
            "runs_per_hour": (u("runs") as f64 / hours) as u64,
            "seeds_per_hour": (u("runs") as f64 / hours) as u64,
            "simulated_time": {
                "unit": "scheduling points: one pointer operation, element callback, hasher, sink, source or join event",
                "steps": u("steps"),
            },
            "operations": by_op("ops"),
            "operations_started_while_another_was_in_progress": u("overlapped"),
            "runs_with_preemption": u("concurrent"),
            "runs_with_a_fired_fault": u("faulted"),
            "distinct_interleavings": {"measure": "hash of the sequence of (from thread, its step, site, to thread)", "count": scheds},
            "context_switches": {"preemptions": u("switches"), "forced": u("forced")},
            "preemptions_by_site": by_site("preempt"),
            "events_by_site": by_site("site"),
            "faults_injected": {"by_site": by_site("fired"), "operations_cut_short": by_op("injected"), "stalled_threads": u("stalls")},
            "oracle_checks": u("checks"),
            "probes": sum["probes"],
            "worst_ratio_to_bound": sum["ratio"],
            "deepest_stack_bytes": u("max_stack"),
            "slowest_run": {"ms": sum["slow"][0], "run": sum["slow"][1]},
            "threads_simulated": u("tasks"),
            "determinism_rechecks": {"repeated": sum["recheck"][0], "differed": sum["recheck"][1]},
            "runs_compared_with_the_other_build": if std::env::var_os("VERIF_OTHER_BUILD").is_some() { u("runs") } else { 0 },
            "real_components": ["rpds (all of /repo/src, built with features std, serde, rayon)", "archery", "triomphe (runs with ArcTK)", "smallvec", "rayon adaptors (C15)", "serde, serde_json (C13, C14)"],
            "simulated_components": ["threads and their scheduler (coroutines)", "pointer kind SimK (follows triomphe's algorithm step by step; about 85% of the runs, the others use ArcTK or RcK)", "rayon-core's work stealing", "elements, hashers, iterators, sinks and sources", "allocation failure", "getrandom"],
            "workers": nw,
            "known_findings_seen": sum["known"],
            "worker_deaths_not_reproduced": unconfirmed,
            "violation": found.as_ref().map(|f| json!({"run": f.run, "class": f.class, "msg": f.msg, "replay": replay.as_ref().map(|p| p.display().to_string())})),
        },
        "assumptions": [
            "Interleavings are sequentially consistent and change at scheduling points only: before and after every pointer operation and callback. Weak-memory effects inside archery/triomphe are out of scope.",
            "SimK behaves as a SharedPointerKind may: clone, drop, uniqueness test, copy and publication are separate atomic steps.",
        ],
        "wall_s": wall,
        "violations": i64::from(found.is_some()),
    })
}

/// Hash over the event logs of the first `n` runs; equal in every process.
pub fn determinism(prop: &str, vseed: u64, n: u64) -> i32 {
    let mut h = 0u64;
    for i in 0..n {
        let spec = gen::spec(prop, vseed, i);
        let (r, _, _) = run_apart(&spec, Sched::Seeded(sched_seed(prop, vseed, i)), false);
        h = mix(h ^ r.log_hash).wrapping_add(r.sched_hash);
    }
    println!("{h:016x}");
    0
}
