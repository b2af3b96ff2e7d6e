//! Runs batches of simulations in worker processes, watches for dead and
//! hanging workers, minimises, writes replay files and evidence.
use crate::ctx::{Ctx, Stop, Violation};
use crate::guard::install_hook;
use crate::plan::Plan;
use crate::rng::{hash_str, mix, Rng};
use crate::shrink::minimise;
use crate::World;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, Command, ExitStatus, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

const FIXED_BASE: u64 = 1 << 40;
const HANG_SECS: u64 = 20;
const MEM_KB: u64 = 6_000_000;

/// The code under test is built twice: with the assertions and arithmetic checks
/// of a development build, and without them, as it is shipped.
const BUILD: &str = if cfg!(debug_assertions) { "dev" } else { "shipped" };

/// This program as built in the given way.
fn exe_of(build: &str) -> std::io::Result<std::path::PathBuf> {
    let me = std::env::current_exe()?;
    if build == BUILD {
        return Ok(me);
    }
    let dir = if build == "shipped" { "shipped" } else { "release" };
    let sibling = me
        .parent()
        .and_then(|p| p.parent())
        .map(|p| p.join(dir).join(me.file_name().unwrap_or_default()))
        .unwrap_or_default();
    Ok(sibling)
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter()
        .position(|a| a == name)
        .and_then(|i| args.get(i + 1))
        .cloned()
}
fn arg_u64(args: &[String], name: &str, default: u64) -> u64 {
    arg(args, name).and_then(|v| v.parse().ok()).unwrap_or(default)
}

#[derive(Clone, Default)]
struct Findings {
    /// (property, signature, text)
    known: Vec<(String, String, String)>,
}
impl Findings {
    fn load() -> Self {
        let path = std::env::var("VERIF_KNOWN").unwrap_or_else(|_| "KNOWN_FINDINGS.txt".into());
        let mut known = vec![];
        if let Ok(text) = std::fs::read_to_string(path) {
            for line in text.lines() {
                let Some(rest) = line.strip_prefix("finding: ") else {
                    continue;
                };
                let mut prop = String::new();
                let mut sig = String::new();
                let mut words = vec![];
                for w in rest.split_whitespace() {
                    if let Some(v) = w.strip_prefix("property=") {
                        prop = v.into();
                    } else if let Some(v) = w.strip_prefix("signature=") {
                        sig = v.into();
                    } else {
                        words.push(w);
                    }
                }
                known.push((prop, sig, words.join(" ")));
            }
        }
        Findings { known }
    }
    fn signatures(&self, prop: &str) -> Vec<String> {
        self.known
            .iter()
            .filter(|k| k.0 == prop)
            .map(|k| k.1.clone())
            .collect()
    }
}

fn plan_for(world: &dyn World, prop: &str, thorough: bool, seed: u64, index: u64) -> Plan {
    if index >= FIXED_BASE {
        return world
            .fixed_plans(prop)
            .into_iter()
            .nth((index - FIXED_BASE) as usize)
            .map(|p| p.1)
            .unwrap_or_default();
    }
    let mut rng = Rng::new(mix(&[seed, hash_str(prop), thorough as u64, index]));
    world.generate(prop, thorough, &mut rng)
}

fn execute(world: &dyn World, prop: &str, known: &[String], plan: &Plan, record: bool) -> Ctx {
    let mut ctx = Ctx::new(prop, known, record);
    match world.run(plan, &mut ctx) {
        Ok(()) | Err(Stop::Violated) => {}
        Err(Stop::Foreign(why)) => {
            ctx.event(format_args!("run ended without verdict: {why}"));
            ctx.count("run.foreign");
        }
    }
    ctx
}

/// Runs `f` on a thread with a large stack (deep documents are legal inputs).
fn on_big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new()
        .stack_size(1 << 29)
        .spawn(f)
        .expect("spawn")
        .join()
        .unwrap_or_else(|_| std::process::exit(3))
}

pub fn main_entry(world: &'static dyn World) {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args.first().map(|s| s.as_str()) {
        Some("check") => check(world, &args),
        Some("worker") => on_big_stack(move || worker(world, &args)),
        Some("replay") => on_big_stack(move || replay(world, &args)),
        Some("trace") => on_big_stack(move || trace(world, &args)),
        Some("digest") => on_big_stack(move || digest(world, &args)),
        Some("probe") => on_big_stack(move || probe(world, &args)),
        _ => {
            eprintln!("usage: check|worker|replay|trace|digest|probe");
            2
        }
    };
    std::process::exit(code);
}

fn out_line(s: &str) {
    let stdout = std::io::stdout();
    let mut l = stdout.lock();
    let _ = l.write_all(s.as_bytes());
    let _ = l.write_all(b"\n");
    let _ = l.flush();
}

/// Runs indices start, start+stride, ... below end; talks to the supervisor on stdout.
fn worker(world: &dyn World, args: &[String]) -> i32 {
    install_hook();
    let prop = arg(args, "--prop").unwrap();
    let thorough = arg(args, "--tier").as_deref() == Some("thorough");
    let seed = arg_u64(args, "--seed", 1);
    let start = arg_u64(args, "--start", 0);
    let stride = arg_u64(args, "--stride", 1);
    let end = arg_u64(args, "--end", 1);
    let secs = arg_u64(args, "--secs", 600);
    let fixed = args.iter().any(|a| a == "--fixed");
    let known = Findings::load().signatures(&prop);
    let t0 = Instant::now();

    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut known_hit: BTreeMap<String, u64> = BTreeMap::new();
    let mut states: HashSet<u64> = HashSet::new();
    let mut scheds: HashSet<u64> = HashSet::new();
    let (mut runs, mut nontrivial, mut events, mut sim_us) = (0u64, 0u64, 0u64, 0u64);
    let mut double = 0u64;
    let mut nondet = 0u64;
    let mut samples: Vec<Value> = vec![];
    let mut violated = false;

    let mut indices: Vec<u64> = vec![];
    if fixed {
        indices.extend((0..world.fixed_plans(&prop).len() as u64).map(|k| FIXED_BASE + k));
    }
    let mut next = start;
    let mut qi = 0;
    loop {
        let index = if qi < indices.len() {
            qi += 1;
            indices[qi - 1]
        } else {
            if next >= end || t0.elapsed().as_secs() >= secs {
                break;
            }
            next += stride;
            next - stride
        };
        out_line(&format!("B {index}"));
        let plan = plan_for(world, &prop, thorough, seed, index);
        let ctx = execute(world, &prop, &known, &plan, false);
        runs += 1;
        events += ctx.events;
        sim_us += ctx.now_us;
        for (k, v) in &ctx.counters {
            *counters.entry(k.to_string()).or_insert(0) += v;
        }
        for (k, v) in &ctx.known_hit {
            *known_hit.entry(k.clone()).or_insert(0) += v;
        }
        if states.len() < 150_000 {
            states.extend(ctx.states.iter());
        }
        if ctx.nontrivial {
            nontrivial += 1;
            if scheds.len() < 300_000 {
                scheds.insert(ctx.sched_hash);
            }
        }
        if let Some(v) = ctx.violation {
            violated = true;
            let rec = |plan: &Plan, v: &Violation, minimised: bool| {
                json!({"property": prop, "seed": seed, "tier": if thorough {"thorough"} else {"quick"},
                       "index": index, "start": start, "stride": stride, "fixed": fixed, "build": BUILD,
                       "signature": v.signature, "message": v.message, "minimised": minimised,
                       "original_steps": plan.steps.len(), "plan": plan.to_json()})
            };
            out_line(&format!("V0 {}", rec(&plan, &v, false)));
            let t1 = Instant::now();
            let min = minimise(
                &plan,
                |cand| {
                    if t1.elapsed().as_secs() > 25 {
                        return false;
                    }
                    let c = execute(world, &prop, &known, cand, false);
                    c.violation.map(|x| x.signature) == Some(v.signature.clone())
                },
                6000,
            );
            let c = execute(world, &prop, &known, &min, false);
            let mut r = match c.violation {
                Some(v2) => rec(&min, &v2, true),
                None => rec(&plan, &v, false),
            };
            r["original_steps"] = json!(plan.steps.len());
            out_line(&format!("V {r}"));
            break;
        }
        // Continuous determinism check: some runs are executed twice.
        if index % 97 == 0 {
            double += 1;
            let again = execute(world, &prop, &known, &plan, false);
            if again.log_hash != ctx.log_hash {
                nondet += 1;
                out_line(&format!("N {index}"));
            }
        }
        if ctx.nontrivial && samples.len() < 2 && runs > 20 && index < FIXED_BASE && start == 0 {
            let c = execute(world, &prop, &known, &plan, true);
            let mut t = c.trace.unwrap_or_default();
            let total = t.len();
            t.truncate(60);
            samples.push(json!({"seed": seed, "index": index, "events": total, "trace": t}));
        }
    }
    let hex = |s: &HashSet<u64>| s.iter().map(|x| json!(x)).collect::<Vec<_>>();
    out_line(&format!(
        "E {}",
        json!({"runs": runs, "nontrivial": nontrivial, "events": events, "sim_us": sim_us,
               "double": double, "nondet": nondet, "counters": counters, "known": known_hit,
               "states": hex(&states), "scheds": hex(&scheds), "samples": samples,
               "violated": violated})
    ));
    0
}

struct W {
    child: Child,
    build: &'static str,
    start: u64,
    /// its summary arrived
    ended: bool,
    done: bool,
    last_index: Option<u64>,
    last_time: Instant,
    v0: Option<Value>,
    v: Option<Value>,
}

fn spawn(build: &str, args: &[String]) -> std::io::Result<Child> {
    let exe = exe_of(build)?;
    let mut c = Command::new("/bin/bash");
    c.arg("-c")
        .arg(format!("ulimit -c 0; ulimit -v {MEM_KB}; exec \"$0\" \"$@\""))
        .arg(exe)
        .args(args)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped());
    c.spawn()
}

enum Msg {
    Line(usize, String),
    Closed(usize),
}

fn read_lines(id: usize, child: &mut Child, tx: mpsc::Sender<Msg>) {
    let out = child.stdout.take().unwrap();
    let err = child.stderr.take().unwrap();
    std::thread::spawn(move || {
        let mut r = BufReader::new(out);
        let mut line = String::new();
        loop {
            line.clear();
            match r.read_line(&mut line) {
                Ok(0) | Err(_) => break,
                Ok(_) => {
                    let _ = tx.send(Msg::Line(id, line.trim_end().to_string()));
                }
            }
        }
        let _ = tx.send(Msg::Closed(id));
    });
    std::thread::spawn(move || {
        let mut r = BufReader::new(err);
        let mut line = String::new();
        let mut n = 0;
        while let Ok(k) = r.read_line(&mut line) {
            if k == 0 {
                break;
            }
            n += 1;
            if n <= 20 {
                eprint!("[worker {id}] {line}");
            }
            line.clear();
        }
    });
}

enum Solo {
    Violated(Value),
    Clean,
    Died(String),
    Hung,
}

/// Executes one plan in a process of its own.
fn solo(build: &str, prop: &str, plan: &Plan, limit: Duration) -> Solo {
    let path = std::env::temp_dir().join(format!("dst-solo-{}-{}.json", prop, std::process::id()));
    let body = json!({"property": prop, "plan": plan.to_json()});
    if std::fs::write(&path, body.to_string()).is_err() {
        return Solo::Clean;
    }
    let args = vec!["probe".to_string(), path.to_string_lossy().to_string()];
    let Ok(mut child) = spawn(build, &args) else {
        return Solo::Clean;
    };
    let (tx, rx) = mpsc::channel();
    read_lines(0, &mut child, tx);
    let t0 = Instant::now();
    let mut got: Option<Value> = None;
    let mut closed = false;
    while t0.elapsed() < limit {
        match rx.recv_timeout(Duration::from_millis(200)) {
            Ok(Msg::Line(_, l)) => {
                if let Ok(v) = serde_json::from_str(&l) {
                    got = Some(v);
                }
            }
            Ok(Msg::Closed(_)) => {
                closed = true;
                break;
            }
            Err(_) => {}
        }
    }
    let r = if !closed {
        let _ = child.kill();
        let _ = child.wait();
        Solo::Hung
    } else {
        match (child.wait(), got) {
            (Ok(st), Some(v)) if st.success() => {
                if v.get("signature").map(|s| s.is_string()) == Some(true) {
                    Solo::Violated(v)
                } else {
                    Solo::Clean
                }
            }
            (st, _) => Solo::Died(describe_exit(st.ok())),
        }
    };
    let _ = std::fs::remove_file(&path);
    r
}

fn describe_exit(st: Option<ExitStatus>) -> String {
    use std::os::unix::process::ExitStatusExt;
    match st {
        Some(s) => match s.signal() {
            Some(sig) => format!("killed by signal {sig}"),
            None => format!("exit code {:?}", s.code()),
        },
        None => "unknown exit".into(),
    }
}

fn probe(world: &dyn World, args: &[String]) -> i32 {
    install_hook();
    let text = std::fs::read_to_string(&args[1]).unwrap();
    let v: Value = serde_json::from_str(&text).unwrap();
    let prop = v["property"].as_str().unwrap().to_string();
    let plan = Plan::from_json(&v["plan"]).unwrap();
    let known = Findings::load().signatures(&prop);
    let ctx = execute(world, &prop, &known, &plan, false);
    match ctx.violation {
        Some(x) => out_line(
            &json!({"signature": x.signature, "message": x.message, "log_hash": ctx.log_hash})
                .to_string(),
        ),
        None => out_line(&json!({"signature": Value::Null, "log_hash": ctx.log_hash}).to_string()),
    }
    0
}

fn check(world: &'static dyn World, args: &[String]) -> i32 {
    let prop = arg(args, "--prop").unwrap_or_default();
    if !world.properties().contains(&prop.as_str()) {
        eprintln!("unknown property {prop}");
        return 2;
    }
    let tier = arg(args, "--tier").unwrap_or_else(|| "quick".into());
    let thorough = tier == "thorough";
    let seed = arg_u64(
        args,
        "--seed",
        std::env::var("VERIF_SEED")
            .ok()
            .and_then(|v| v.parse().ok())
            .unwrap_or(1),
    );
    let runs = arg_u64(args, "--runs", world.run_count(&prop, thorough));
    let secs = arg_u64(args, "--secs", if thorough { 700 } else { 120 });
    let workers = arg_u64(
        args,
        "--workers",
        std::thread::available_parallelism()
            .map(|n| n.get() as u64)
            .unwrap_or(4)
            .clamp(1, 8),
    );
    let evidence = arg(args, "--evidence").unwrap_or_else(|| format!("evidence/{prop}.json"));
    let replay_dir = arg(args, "--replays").unwrap_or_else(|| "replays".into());
    let t0 = Instant::now();
    println!("property={prop} tier={tier} VERIF_SEED={seed} runs={runs} workers={workers}");

    let (tx, rx) = mpsc::channel();
    let mut ws: Vec<W> = vec![];
    let base_args = |start: u64, from: u64, fixed: bool| {
        let mut a: Vec<String> = vec!["worker".into()];
        for (k, v) in [
            ("--prop", prop.clone()),
            ("--tier", tier.clone()),
            ("--seed", seed.to_string()),
            ("--start", from.to_string()),
            ("--stride", workers.to_string()),
            ("--end", runs.to_string()),
            ("--secs", secs.to_string()),
        ] {
            a.push(k.into());
            a.push(v);
        }
        let _ = start;
        if fixed {
            a.push("--fixed".into());
        }
        a
    };
    let launch = |ws: &mut Vec<W>, build: &'static str, from: u64, fixed: bool| -> bool {
        match spawn(build, &base_args(from, from, fixed)) {
            Ok(mut child) => {
                let id = ws.len();
                read_lines(id, &mut child, tx.clone());
                ws.push(W {
                    child,
                    build,
                    start: from,
                    ended: false,
                    done: false,
                    last_index: None,
                    last_time: Instant::now(),
                    v0: None,
                    v: None,
                });
                true
            }
            Err(e) => {
                eprintln!("cannot start a worker: {e}");
                false
            }
        }
    };
    // every second worker is of the other build
    let both = args.iter().any(|a| a == "--both");
    for w in 0..workers {
        let build = if both && w % 2 == 1 { "shipped" } else { BUILD };
        if !launch(&mut ws, build, w, w == 0 || (both && w == 1)) {
            return 2;
        }
    }

    let mut total: Map<String, Value> = Map::new();
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut known_hit: BTreeMap<String, u64> = BTreeMap::new();
    let mut states: HashSet<u64> = HashSet::new();
    let mut scheds: HashSet<u64> = HashSet::new();
    let mut samples: Vec<Value> = vec![];
    let mut nondet: Vec<u64> = vec![];
    let mut violations: Vec<Value> = vec![];
    let mut unconfirmed = 0u64;
    let mut deaths = 0u32;
    let known = Findings::load();
    let mut stop_at: Option<Instant> = None;

    // A dead or hanging worker: find out whether its last plan does it again, alone.
    let post_mortem = |w: &W, hung: bool, how: &str| -> Option<Value> {
        let index = w.last_index?;
        let plan = plan_for(world, &prop, thorough, seed, index);
        let limit = Duration::from_secs(HANG_SECS * 2);
        let class = |s: &Solo| match s {
            Solo::Hung => Some("hang".to_string()),
            Solo::Died(h) => Some(format!("process-death ({h})")),
            _ => None,
        };
        let first = solo(w.build, &prop, &plan, limit);
        if let Solo::Violated(v) = &first {
            return Some(json!({"property": prop, "seed": seed, "tier": tier, "index": index, "build": w.build,
                "signature": v["signature"], "message": v["message"], "minimised": false,
                "original_steps": plan.steps.len(), "plan": plan.to_json()}));
        }
        let c = class(&first)?;
        let _ = (hung, how);
        let t1 = Instant::now();
        let short = Duration::from_secs(6);
        let min = minimise(
            &plan,
            |cand| {
                t1.elapsed().as_secs() < 60
                    && class(&solo(w.build, &prop, cand, short)).as_deref() == Some(c.as_str())
            },
            200,
        );
        let min = if class(&solo(w.build, &prop, &min, limit)).as_deref() == Some(c.as_str()) {
            min
        } else {
            plan.clone()
        };
        let sig = format!("{prop}/{}", c.split(' ').next().unwrap());
        Some(json!({"property": prop, "seed": seed, "tier": tier, "index": index, "build": w.build,
            "signature": sig, "message": format!("the simulated program ended in: {c}"),
            "mode": "process", "minimised": true,
            "original_steps": plan.steps.len(), "plan": min.to_json()}))
    };

    let add = |m: &mut Map<String, Value>, e: &Value, k: &str| {
        let v = m.get(k).and_then(|x| x.as_u64()).unwrap_or(0) + e[k].as_u64().unwrap_or(0);
        m.insert(k.into(), json!(v));
    };
    loop {
        if ws.iter().all(|w| w.done) {
            break;
        }
        match rx.recv_timeout(Duration::from_millis(250)) {
            Ok(Msg::Line(id, l)) => {
                let (tag, rest) = l.split_once(' ').unwrap_or((&l, ""));
                ws[id].last_time = Instant::now();
                match tag {
                    "B" => ws[id].last_index = rest.parse().ok(),
                    "N" => nondet.push(rest.parse().unwrap_or(0)),
                    "V0" => ws[id].v0 = serde_json::from_str(rest).ok(),
                    "V" => {
                        ws[id].v = serde_json::from_str(rest).ok();
                        ws[id].v0 = None;
                    }
                    "E" => {
                        if let Ok(e) = serde_json::from_str::<Value>(rest) {
                            for k in ["runs", "nontrivial", "events", "sim_us", "double"] {
                                add(&mut total, &e, k);
                            }
                            for (src, dst) in [("counters", &mut counters), ("known", &mut known_hit)] {
                                if let Some(o) = e[src].as_object() {
                                    for (k, v) in o {
                                        *dst.entry(k.clone()).or_insert(0) += v.as_u64().unwrap_or(0);
                                    }
                                }
                            }
                            for (src, dst) in [("states", &mut states), ("scheds", &mut scheds)] {
                                if let Some(o) = e[src].as_array() {
                                    dst.extend(o.iter().filter_map(|x| x.as_u64()));
                                }
                            }
                            if let Some(o) = e["samples"].as_array() {
                                samples.extend(o.iter().cloned());
                            }
                        }
                        ws[id].ended = true;
                    }
                    _ => {}
                }
            }
            Ok(Msg::Closed(id)) => {
                let st = ws[id].child.wait().ok();
                if let Some(v) = ws[id].v.take().or(ws[id].v0.take()) {
                    violations.push(v);
                    ws[id].done = true;
                } else if ws[id].ended {
                    ws[id].done = true;
                } else if !ws[id].done {
                    ws[id].done = true;
                    deaths += 1;
                    let how = describe_exit(st);
                    eprintln!("worker {id} died ({how}) at run {:?}", ws[id].last_index);
                    match post_mortem(&ws[id], false, &how) {
                        Some(v) => violations.push(v),
                        None => {
                            unconfirmed += 1;
                            if deaths > 16 {
                                eprintln!("workers keep dying without a reproducible run");
                                return 2;
                            }
                            // carry on after the run that could not be confirmed
                            if let Some(i) = ws[id].last_index {
                                let from = if i >= FIXED_BASE { ws[id].start } else { i + workers };
                                let build = ws[id].build;
                                launch(&mut ws, build, from, false);
                            }
                        }
                    }
                }
            }
            Err(_) => {}
        }
        // After the first violation the rest may finish minimising theirs, no more.
        if !violations.is_empty() {
            let grace = *stop_at.get_or_insert_with(|| Instant::now() + Duration::from_secs(15));
            for w in ws.iter_mut() {
                if !w.done && (w.v0.is_none() && w.v.is_none() || Instant::now() > grace) {
                    let _ = w.child.kill();
                    let _ = w.child.wait();
                    if let Some(v) = w.v.take().or(w.v0.take()) {
                        violations.push(v);
                    }
                    w.done = true;
                }
            }
        }
        for id in 0..ws.len() {
            if ws[id].done || ws[id].last_time.elapsed().as_secs() < HANG_SECS {
                continue;
            }
            // (a minimisation in progress sends no lines but is bounded)
            if ws[id].v0.is_some() && ws[id].last_time.elapsed().as_secs() < HANG_SECS + 40 {
                continue;
            }
            eprintln!("worker {id} makes no progress in run {:?}", ws[id].last_index);
            let _ = ws[id].child.kill();
            let _ = ws[id].child.wait();
            ws[id].done = true;
            if let Some(v) = ws[id].v0.take() {
                violations.push(v);
                continue;
            }
            deaths += 1;
            match post_mortem(&ws[id], true, "hang") {
                Some(v) => {
                    violations.push(v);
                    for w in ws.iter_mut() {
                        if !w.done {
                            let _ = w.child.kill();
                            let _ = w.child.wait();
                            w.done = true;
                        }
                    }
                }
                None => {
                    unconfirmed += 1;
                    if deaths > 16 {
                        return 2;
                    }
                    if let Some(i) = ws[id].last_index {
                        let from = if i >= FIXED_BASE { ws[id].start } else { i + workers };
                        let build = ws[id].build;
                                launch(&mut ws, build, from, false);
                    }
                }
            }
        }
    }
    for w in ws.iter_mut() {
        let _ = w.child.kill();
        let _ = w.child.wait();
    }
    let wall = t0.elapsed().as_secs_f64();

    // Reports
    for (p, sig, text) in &known.known {
        if p == &prop && known_hit.get(sig).copied().unwrap_or(0) > 0 {
            println!("KNOWN-FINDING: property={prop} {text}");
        }
    }
    let mut reported: Vec<String> = vec![];
    let _ = std::fs::create_dir_all(&replay_dir);
    violations.sort_by_key(|v| v["index"].as_u64().unwrap_or(0));
    for v in &violations {
        let sig = v["signature"].as_str().unwrap_or("?").to_string();
        if reported.contains(&sig) || reported.len() >= 3 {
            continue;
        }
        reported.push(sig.clone());
        let path = format!("{}/{}-{:016x}.json", replay_dir, prop, mix(&[hash_str(&sig), seed]));
        let mut v = v.clone();
        let write = |v: &Value| std::fs::write(&path, serde_json::to_string_pretty(v).unwrap());
        let _ = write(&v);
        // Does a fresh process reproduce it?
        let again = Command::new(std::env::current_exe().unwrap())
            .args(["replay", &path])
            .stderr(Stdio::null())
            .output();
        let ok = again.as_ref().map(|o| o.status.code() == Some(1)).unwrap_or(false);
        if !ok && v["mode"].is_null() && !v["start"].is_null() {
            // Only fails after the runs before it in the same process: keep them.
            v["mode"] = json!("prefix");
            let _ = write(&v);
        }
        println!("violated: {sig}: {}", v["message"].as_str().unwrap_or(""));
        println!(
            "seed={seed} run={} build={} minimised from {} to {} steps, reproduced in a fresh process: {}",
            v["index"],
            v["build"].as_str().unwrap_or(BUILD),
            v["original_steps"],
            v["plan"]["steps"].as_array().map(|a| a.len()).unwrap_or(0),
            ok
        );
        println!("VIOLATION property={prop} replay={path}");
    }

    let runs_done = total.get("runs").and_then(|v| v.as_u64()).unwrap_or(0);
    let group = |prefix: &str| {
        counters
            .iter()
            .filter_map(|(k, v)| k.strip_prefix(prefix).map(|k| (k.to_string(), json!(v))))
            .collect::<Map<String, Value>>()
    };
    let others = counters
        .iter()
        .filter(|(k, _)| {
            !["fault.", "op.", "probe.", "oracle."]
                .iter()
                .any(|p| k.starts_with(p))
        })
        .map(|(k, v)| (k.clone(), json!(v)))
        .collect::<Map<String, Value>>();
    let ev = json!({
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs_done,
            "distinct_nontrivial": scheds.len(),
            "rule": world.rule(&prop),
            "samples": samples,
            "simulated_runs": runs_done,
            "runs_requested": runs,
            "seeds_per_hour": (runs_done as f64 / wall * 3600.0) as u64,
            "simulated_time_s": total.get("sim_us").and_then(|v| v.as_u64()).unwrap_or(0) as f64 / 1e6,
            "events": total.get("events").cloned().unwrap_or(json!(0)),
            "nontrivial_runs": total.get("nontrivial").cloned().unwrap_or(json!(0)),
            "distinct_states": states.len(),
            "distinct_states_measure": "distinct hashes of (document, tracked positions / caret) reached, capped at 150000 per worker",
            "faults_injected": group("fault."),
            "operations": group("op."),
            "oracle_evaluations": group("oracle."),
            "probes": group("probe."),
            "other_counters": others,
            "determinism": {"runs_executed_twice": total.get("double").cloned().unwrap_or(json!(0)), "diverged": nondet.len()},
            "workers": workers, "builds": if both { json!(["dev (assertions, overflow checks)", "shipped (neither)"]) } else { json!([BUILD]) }, "worker_deaths_unconfirmed": unconfirmed,
            "components": world.components(&prop),
            "known_findings_hit": known_hit,
        },
        "assumptions": world.assumptions(&prop),
        "wall_s": wall,
        "violations": reported.len(),
    });
    if let Some(dir) = std::path::Path::new(&evidence).parent() {
        let _ = std::fs::create_dir_all(dir);
    }
    if let Err(e) = std::fs::write(&evidence, serde_json::to_string_pretty(&ev).unwrap()) {
        eprintln!("cannot write evidence: {e}");
        return 2;
    }
    println!(
        "runs={runs_done} nontrivial_distinct={} states={} sim_time={:.1}s wall={:.1}s nondeterministic={} violations={}",
        scheds.len(),
        states.len(),
        total.get("sim_us").and_then(|v| v.as_u64()).unwrap_or(0) as f64 / 1e6,
        wall,
        nondet.len(),
        reported.len()
    );
    if !reported.is_empty() {
        1
    } else if runs_done == 0 {
        eprintln!("no run completed");
        2
    } else {
        0
    }
}

/// Re-executes a replay file. Exit 1 when it fails in the recorded way.
fn replay(world: &dyn World, args: &[String]) -> i32 {
    install_hook();
    let Some(path) = args.get(1) else { return 2 };
    let Ok(text) = std::fs::read_to_string(path) else {
        eprintln!("cannot read {path}");
        return 2;
    };
    let v: Value = serde_json::from_str(&text).expect("replay file");
    let build = v["build"].as_str().unwrap_or(BUILD);
    if build != BUILD {
        let exe = exe_of(build).unwrap_or_default();
        return match Command::new(&exe).args(args).status() {
            Ok(s) => s.code().unwrap_or(2),
            Err(e) => {
                eprintln!("cannot run {}: {e}", exe.display());
                2
            }
        };
    }
    let prop = v["property"].as_str().unwrap().to_string();
    let plan = Plan::from_json(&v["plan"]).expect("plan");
    let want = v["signature"].as_str().unwrap_or("").to_string();
    let known = Findings::load().signatures(&prop);
    if v["mode"] == "process" {
        let r = solo(BUILD, &prop, &plan, Duration::from_secs(HANG_SECS * 2));
        return match r {
            Solo::Hung if want.ends_with("/hang") => {
                println!("reproduced: hang");
                1
            }
            Solo::Died(h) if want.contains("/process-death") => {
                println!("reproduced: {h}");
                1
            }
            _ => {
                println!("not reproduced");
                0
            }
        };
    }
    let (seed, index) = (v["seed"].as_u64().unwrap_or(1), v["index"].as_u64().unwrap_or(0));
    let mut plan = plan;
    if v["mode"] == "prefix" {
        let thorough = v["tier"] == "thorough";
        let stride = v["stride"].as_u64().unwrap_or(1);
        let mut list: Vec<u64> = vec![];
        if v["fixed"] == true {
            list.extend((0..world.fixed_plans(&prop).len() as u64).map(|k| FIXED_BASE + k));
        }
        let mut i = v["start"].as_u64().unwrap_or(0);
        while i < index && index < FIXED_BASE {
            list.push(i);
            i += stride;
        }
        for i in list {
            if i == index {
                break;
            }
            let p = plan_for(world, &prop, thorough, seed, i);
            let c = execute(world, &prop, &known, &p, false);
            if i % 97 == 0 && c.violation.is_none() {
                execute(world, &prop, &known, &p, false);
            }
        }
        plan = plan_for(world, &prop, thorough, seed, index);
    }
    let ctx = execute(world, &prop, &known, &plan, true);
    for l in ctx.trace.as_deref().unwrap_or(&[]) {
        println!("{l}");
    }
    match ctx.violation {
        Some(x) if x.signature == want => {
            println!("reproduced: {}: {}", x.signature, x.message);
            println!("same message as recorded: {}", v["message"] == json!(x.message));
            1
        }
        Some(x) => {
            println!("different violation: {}: {}", x.signature, x.message);
            0
        }
        None => {
            println!("not reproduced");
            0
        }
    }
}

fn trace(world: &dyn World, args: &[String]) -> i32 {
    install_hook();
    let prop = arg(args, "--prop").unwrap();
    let thorough = arg(args, "--tier").as_deref() == Some("thorough");
    let known = Findings::load().signatures(&prop);
    let index = match arg(args, "--fixed") {
        Some(k) => FIXED_BASE + k.parse::<u64>().unwrap(),
        None => arg_u64(args, "--index", 0),
    };
    let plan = plan_for(world, &prop, thorough, arg_u64(args, "--seed", 1), index);
    println!("{}", plan.to_json());
    let ctx = execute(world, &prop, &known, &plan, true);
    for l in ctx.trace.unwrap_or_default() {
        println!("{l}");
    }
    println!("counters {:?}", ctx.counters);
    println!("known {:?} violation {:?} nontrivial {}", ctx.known_hit, ctx.violation, ctx.nontrivial);
    0
}

/// Prints one line per run with the hash of its event log (determinism self-check).
fn digest(world: &dyn World, args: &[String]) -> i32 {
    install_hook();
    let prop = arg(args, "--prop").unwrap();
    let thorough = arg(args, "--tier").as_deref() == Some("thorough");
    let known = Findings::load().signatures(&prop);
    let seed = arg_u64(args, "--seed", 1);
    let start = arg_u64(args, "--start", 0);
    let stride = arg_u64(args, "--stride", 1);
    let end = arg_u64(args, "--end", 100);
    let mut i = start;
    while i < end {
        let plan = plan_for(world, &prop, thorough, seed, i);
        let ctx = execute(world, &prop, &known, &plan, false);
        out_line(&format!(
            "{prop} {seed} {i} {:016x} {} {}",
            ctx.log_hash,
            ctx.events,
            ctx.violation.map(|v| v.signature).unwrap_or_default()
        ));
        i += stride;
    }
    0
}
