//! The simulated page: draws plans (schedules of events, timers and faults)
//! and has them executed by the real front end, which runs in a node process
//! of its own over the real core.
use kernel::{Ctx, Plan, Rng, Step, Stop, World};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::os::unix::process::CommandExt;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::Mutex;

extern "C" {
    fn prctl(option: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}
const PR_SET_PDEATHSIG: i32 = 1;
const SIGKILL: u64 = 9;

struct Page {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}
impl Page {
    fn open(without_segmenter: bool) -> Page {
        let me = std::env::current_exe().expect("own path");
        let dir = me.parent().expect("own directory");
        let mut c = Command::new("node");
        c.arg("--max-old-space-size=900")
            .arg(dir.join("page.mjs"))
            .env("PAGE_CORE", dir.join("libpage_core.so"))
            .env("PAGE_WITHOUT_SEGMENTER", if without_segmenter { "1" } else { "0" })
            .env_remove("NODE_OPTIONS")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::inherit());
        unsafe {
            c.pre_exec(|| {
                prctl(PR_SET_PDEATHSIG, SIGKILL, 0, 0, 0);
                Ok(())
            });
        }
        let mut child = c.spawn().expect("node starts");
        let to = child.stdin.take().expect("stdin");
        let from = BufReader::new(child.stdout.take().expect("stdout"));
        Page { child, to, from }
    }
    /// None: the process ended.
    fn ask(&mut self, request: &str) -> Option<Value> {
        self.to.write_all(request.as_bytes()).ok()?;
        self.to.write_all(b"\n").ok()?;
        self.to.flush().ok()?;
        let mut line = String::new();
        match self.from.read_line(&mut line) {
            Ok(n) if n > 0 => Some(
                serde_json::from_str(&line)
                    .unwrap_or_else(|e| json!({"bug": format!("unreadable answer: {e}")})),
            ),
            _ => None,
        }
    }
}
impl Drop for Page {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
/// One process per kind of browser: with and without Intl.Segmenter.
static PAGES: [Mutex<Option<Page>>; 2] = [const { Mutex::new(None) }; 2];
static NAMES: Mutex<BTreeMap<String, &'static str>> = Mutex::new(BTreeMap::new());

fn name(s: &str) -> &'static str {
    let mut names = NAMES.lock().unwrap();
    if let Some(n) = names.get(s) {
        return n;
    }
    let n: &'static str = Box::leak(s.to_string().into_boxed_str());
    names.insert(s.to_string(), n);
    n
}

/// Executes a plan; a process that ends is tried once more from the start.
fn ask(request: &str, without_segmenter: bool) -> Option<Value> {
    let mut page = PAGES[without_segmenter as usize].lock().unwrap();
    for _ in 0..2 {
        let p = page.get_or_insert_with(|| Page::open(without_segmenter));
        if let Some(v) = p.ask(request) {
            return Some(v);
        }
        *page = None;
    }
    None
}

struct PageWorld;

const OPS: [&str; 15] = [
    "key", "type", "del", "odd", "timer", "timers", "copy", "cut", "paste", "pointer", "host",
    "broken", "focus", "another", "move",
];

fn generate(prop: &str, thorough: bool, rng: &mut Rng) -> Plan {
    let mut plan = Plan::default();
    plan.cfg.insert(
        "editors".into(),
        [0, 0, 0, 1, 1, 2][rng.usize(6)],
    );
    plan.cfg.insert("start".into(), rng.below(1 << 20));
    // Editors are made by the host's script, from formulas in the page, or from markup
    plan.cfg.insert("page".into(), [0, 0, 0, 1, 2][rng.usize(5)]);
    let n = if thorough && rng.permille(200) { 20 + rng.usize(60) } else { 3 + rng.usize(28) };
    //            key typ del odd tim tis cop cut pas poi hos bro foc ano mov
    let base: [u64; 15] = match prop {
        "C24" => [12, 34, 8, 1, 2, 14, 2, 2, 5, 6, 10, 1, 1, 1, 1],
        "C18" => [16, 18, 5, 1, 2, 14, 2, 3, 4, 30, 4, 1, 1, 1, 1],
        "C19" => [8, 12, 4, 1, 5, 5, 2, 3, 4, 6, 30, 8, 1, 2, 2],
        _ => [16, 18, 8, 3, 8, 5, 4, 4, 8, 18, 3, 3, 2, 1, 2],
    };
    // Every session leans towards some kinds of events
    let weights: Vec<u64> = base
        .iter()
        .map(|w| match rng.below(8) {
            0 => 0,
            1..=2 => w * 3,
            _ => *w,
        } + 1)
        .collect();
    // In some sessions the page is idle between the events, in others never
    let idle = [0u64, 300, 850, 1000][rng.usize(4)];
    let word = |rng: &mut Rng| rng.below(1 << 16);
    while plan.steps.len() < n {
        let e = rng.below(3);
        if rng.permille(12) {
            // Much input while the page is busy
            for _ in 0..6 + rng.below(20) {
                let what = ["type", "type", "type", "del"][rng.usize(4)];
                plan.steps.push(Step::new(what, vec![e, word(rng)]));
            }
            match rng.below(4) {
                0 => plan.steps.push(Step::new("timers", vec![e])),
                1 => plan.steps.push(Step::new("timer", vec![e])),
                2 => plan.steps.push(Step::new("key", vec![e, rng.below(4)])),
                _ => {
                    let at = [rng.below(8), word(rng)];
                    plan.steps.push(Step::new("pointer", vec![e, 0, at[0], at[1], 1]));
                    plan.steps.push(Step::new("pointer", vec![e, 3, at[0], at[1], 1]));
                }
            }
        }
        let op = OPS[rng.weighted(&weights)];
        let mut a = vec![e];
        match op {
            "key" => {
                a.push([0, 1, 2, 3, 0, 1, 4, 5, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13][rng.usize(18)]);
                a.push(if rng.permille(120) { 1 + rng.below(6) } else { 0 });
            }
            "type" => a.push(word(rng)),
            "del" | "odd" | "copy" | "cut" | "broken" => a.push(word(rng)),
            "paste" | "move" => {
                a.push(word(rng));
                a.push(word(rng));
            }
            "host" => {
                // Often one of a few formulas, so that the same one is set again
                a.push(if rng.permille(350) { rng.below(4) } else { rng.below(1 << 24) });
                a.push(if rng.permille(300) { 0 } else { word(rng) });
            }
            "pointer" => {
                let kind = rng.below(8);
                // A press with what belongs to it: moves, a release, clicks
                if rng.permille(700) {
                    let other = 1 + rng.below(15);
                    let press = [rng.below(8), word(rng)];
                    plan.steps.push(Step::new("pointer", vec![e, 0, press[0], press[1], other]));
                    if rng.permille(300) {
                        plan.steps.push(Step::new(
                            "pointer",
                            vec![e, 6, press[0], press[1], 1 + rng.below(15)],
                        ));
                    }
                    for _ in 0..rng.below(4) {
                        let step = if rng.permille(150) {
                            Step::new("timer", vec![e])
                        } else if rng.permille(150) {
                            // A second finger
                            Step::new("pointer", vec![e, rng.below(6), rng.below(8), word(rng), 0])
                        } else if rng.permille(200) {
                            // Typing while pressing
                            Step::new(["type", "del"][rng.usize(2)], vec![e, word(rng)])
                        } else {
                            Step::new(
                                "pointer",
                                vec![e, 1, rng.below(8), word(rng), 1 + rng.below(15)],
                            )
                        };
                        plan.steps.push(step);
                    }
                    if rng.permille(900) {
                        let end = if rng.permille(100) { 5 } else { 3 };
                        plan.steps.push(Step::new("pointer", vec![e, end, press[0], press[1], other]));
                    }
                    continue;
                }
                a.extend([kind, rng.below(8), word(rng), word(rng)]);
            }
            _ => {}
        }
        plan.steps.push(Step::new(op, a));
        if rng.permille(idle) {
            plan.steps.push(Step::new("timers", vec![e]));
        }
    }
    plan
}

const CALLS: [&str; 15] = [
    "move", "select", "type", "remove", "plain", "point", "complete", "copy", "paste", "splice",
    "bad", "parser", "another", "drop", "name",
];

/// A program that calls the programming interface directly.
fn generate_calls(thorough: bool, rng: &mut Rng) -> Plan {
    let mut plan = Plan::default();
    plan.cfg.insert("editors".into(), [0, 0, 1, 1, 2][rng.usize(5)]);
    plan.cfg.insert("start".into(), rng.below(1 << 20));
    let n = if thorough && rng.permille(200) { 20 + rng.usize(60) } else { 3 + rng.usize(28) };
    //            mov sel typ rem pla poi com cop pas spl bad par ano dro nam
    let base: [u64; 15] = [12, 8, 26, 8, 8, 8, 8, 4, 6, 6, 4, 3, 3, 2, 3];
    let weights: Vec<u64> = base
        .iter()
        .map(|w| match rng.below(8) {
            0 => 0,
            1..=2 => w * 3,
            _ => *w,
        } + 1)
        .collect();
    while plan.steps.len() < n {
        let op = CALLS[rng.weighted(&weights)];
        let (e, x, y) = (rng.below(5), rng.below(1 << 16), rng.below(1 << 20));
        // What is read afterwards: nothing more, offers, the tree, or everything of every editor
        let read = [0u64, 0, 1, 2, 3][rng.usize(5)];
        plan.steps.push(Step::new(op, vec![e, x, y, read]));
    }
    plan
}

impl World for PageWorld {
    fn properties(&self) -> &'static [&'static str] {
        &["C18", "C19", "C22", "C23", "C24"]
    }
    fn run_count(&self, prop: &str, thorough: bool) -> u64 {
        match (prop, thorough) {
            ("C23", true) => 1_500_000,
            ("C23", false) => 50_000,
            (_, true) => 400_000,
            (_, false) => 30_000,
        }
    }
    fn generate(&self, prop: &str, thorough: bool, rng: &mut Rng) -> Plan {
        if prop == "C23" {
            generate_calls(thorough, rng)
        } else {
            let mut plan = generate(prop, thorough, rng);
            // Some browsers cannot cut text into symbols as users see them
            plan.cfg.insert("plain".into(), rng.permille(80) as u64);
            plan
        }
    }
    fn run(&self, plan: &Plan, ctx: &mut Ctx) -> Result<(), Stop> {
        let request = json!({"prop": ctx.prop, "plan": plan.to_json()}).to_string();
        let without_segmenter = plan.cfg.get("plain").is_some_and(|x| *x == 1);
        if without_segmenter {
            ctx.count("fault.browser_without_segmenter");
        }
        let Some(answer) = ask(&request, without_segmenter) else {
            return ctx.fail_for(
                &["C22"],
                "page-ended",
                "the process that runs the page ended".into(),
            );
        };
        if let Some(bug) = answer["bug"].as_str() {
            eprintln!("the simulator failed: {bug}");
            ctx.count("run.simulator_failed");
            return Err(Stop::Foreign(bug.to_string()));
        }
        let list = |k: &str| answer[k].as_array().cloned().unwrap_or_default();
        for l in list("log") {
            ctx.event(format_args!("{}", l.as_str().unwrap_or_default()));
        }
        for d in list("schedule") {
            ctx.sched(d.as_str().unwrap_or_default(), 0);
        }
        for s in list("states") {
            ctx.state(s.as_u64().unwrap_or_default());
        }
        if let Some(c) = answer["counters"].as_object() {
            for (k, n) in c {
                ctx.count_n(name(k), n.as_u64().unwrap_or(0));
            }
        }
        ctx.now_us = answer["now"].as_f64().map_or(0, |ms| (ms * 1000.0) as u64);
        ctx.nontrivial = answer["did"].as_u64().unwrap_or(0) > 0;
        if let Some(v) = answer["violation"].as_object() {
            let full = v["signature"].as_str().unwrap_or_default();
            let short = full.split_once('/').map_or(full, |x| x.1);
            return ctx.fail(short, v["message"].as_str().unwrap_or_default().to_string());
        }
        if let Some(f) = answer["foreign"].as_str() {
            return Err(Stop::Foreign(f.to_string()));
        }
        Ok(())
    }
    fn fixed_plans(&self, prop: &str) -> Vec<(String, Plan)> {
        let _ = prop;
        vec![]
    }
    fn rule(&self, prop: &str) -> String {
        if prop == "C23" {
            return "A case is one simulated program: a seed draws the parsers and editors it starts with and a schedule of calls on several editors, of compositions and disposals of parsers, and of senseless arguments. distinct_nontrivial counts distinct schedules (hash over the kinds of calls and the editors they went to) among the runs in which at least one call was made.".into();
        }
        "A case is one simulated page: a seed draws the editors and their starting formulas and a schedule of key presses, text input, clipboard and pointer events, formula changes by the host page, timers and faults. distinct_nontrivial counts distinct schedules (hash over the kinds of events and the editors they went to) among the runs in which at least one event was handled.".into()
    }
    fn components(&self, prop: &str) -> Value {
        if prop == "C23" {
            return json!({"real": ["the front end's interface to the core (/repo/src/core/index.ts)", "the Rust core behind its WebAssembly bindings (crate web), with caret, parser, serialization and input_tree"],
               "simulated": ["the program which calls the interface", "the clipboard's content", "the wasm boundary: native code called from node (sim/page/core), stand-ins for wasm-bindgen, tsify and serde-wasm-bindgen", "parser combinator library (sim/mini-chumsky)"]});
        }
        json!({"real": ["the front end in /repo/src: <math-editor>, input handler, caret elements, MathML import, renderer and hit testing (bundled by esbuild as written)", "the Rust core behind its WebAssembly bindings (crate web), with caret, parser, serialization and input_tree"],
               "simulated": ["the document object model: elements, attributes, custom elements, ranges, HTML fragments, focus, pointer capture (sim/page/js/dom.mjs)", "layout: a plain deterministic box model", "timers, events and their targets", "system clipboard and other windows", "the wasm boundary: native code called from node (sim/page/core), stand-ins for wasm-bindgen, tsify and serde-wasm-bindgen", "parser combinator library (sim/mini-chumsky)"]})
    }
    fn assumptions(&self, prop: &str) -> Vec<String> {
        if prop == "C23" {
            return vec![
                "the stand-ins for wasm-bindgen, tsify and serde-wasm-bindgen convert values as the real ones do".into(),
                "calls that select cells of a table are followed by no editing (known finding C09/table-selection)".into(),
                "documents stay below 80 elements and 6 levels, with at most 5 opening brackets".into(),
            ];
        }
        vec![
            "the simulated document object model and layout do what a browser's do, as far as the front end uses them".into(),
            "events that select cells of a table are followed by no editing (known finding C09/table-selection)".into(),
            "a symbol is what users see as one character, or a code point in browsers without Intl.Segmenter".into(),
            "documents are edited while below 120 elements and 7 levels, with at most 5 opening brackets".into(),
        ]
    }
}

static WORLD: PageWorld = PageWorld;

fn main() {
    kernel::main_entry(&WORLD);
}
