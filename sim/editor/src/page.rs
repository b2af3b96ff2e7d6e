//! The page: several editors that share a parser and a clipboard, and the
//! people, programs and faults that act on them.
use crate::{
    clip,
    model::*,
    rules::{Built, Setup},
    session::*,
};
use caret::math_editor::MathEditor;
use kernel::{guard, rng::hash_str, Ctx, Plan, Rng, Step, Stop};
use parser::parser::MathParser;
use std::collections::VecDeque;
use std::rc::Rc;
use treekit::{gen, places, row_at, MNode};

const MAX_DEPTH: usize = 14;

const SYMBOLS: &[&str] = &[
    "a", "b", "c", "x", "1", "2", "+", "-", "=", ",", " ", "é", "∑", "(", ")", "\"", "\\", "👩‍👩‍👧",
    "", "ab", "aé", "é∑", "l", "i", "m", "s", "u", "n", "f", "t", "q", "r", ">", "<", "e", "v",
    "o", "g", "y", "p", "^", "_", "/", "\n", "{", "|", "e\u{301}", "sq", "rt", "in",
];

// ---------------------------------------------------------------- generating

/// Who produces events, with how often each is drawn.
#[derive(Clone, Copy)]
enum Source {
    Keys,
    Rules,
    Arrows,
    Pointer,
    Clipboard,
    History,
    Popup,
    Host,
    Screen,
    Life,
    Sweep,
}
use Source::*;
const SOURCES: [Source; 11] = [
    Keys, Rules, Arrows, Pointer, Clipboard, History, Popup, Host, Screen, Life, Sweep,
];

fn weights(prop: &str) -> [u64; 11] {
    match prop {
        //        key rul arr ptr clp his pop hos scr lif swp
        "C08" => [20, 14, 8, 6, 8, 24, 8, 8, 3, 1, 1],
        "C09" => [16, 12, 12, 16, 14, 10, 8, 8, 4, 2, 1],
        "C10" => [40, 6, 14, 14, 6, 5, 4, 6, 2, 1, 2],
        "C11" => [10, 4, 6, 12, 40, 8, 2, 4, 2, 4, 0],
        "C12" => [14, 10, 8, 6, 10, 16, 6, 10, 30, 2, 1],
        "C13" => [8, 50, 16, 6, 3, 10, 16, 3, 6, 1, 1],
        "C14" => [14, 16, 8, 8, 8, 8, 10, 6, 16, 6, 1],
        "C16" => [30, 4, 4, 4, 6, 6, 4, 24, 40, 2, 1],
        "C17" => [40, 4, 4, 4, 4, 6, 4, 24, 40, 1, 1],
        _ => [14, 6, 14, 8, 4, 6, 4, 10, 1, 1, 14],
    }
}

fn dt(rng: &mut Rng) -> u64 {
    match rng.below(12) {
        0 => rng.range(200, 3000), // held up
        1 => 0,
        _ => rng.range(1, 120),
    }
}

fn near(rng: &mut Rng) -> [u64; 2] {
    // mode: 0 anywhere, 1 close to the caret
    [rng.below(2), if rng.permille(100) { rng.below(5000) } else { rng.below(400) }]
}

fn arrow(rng: &mut Rng) -> u64 {
    [0, 0, 1, 1, 1, 2, 3][rng.usize(7)]
}

/// One burst of a source, as steps without the editor number.
fn burst(src: Source, rng: &mut Rng, swarm: &Swarm, q: &mut VecDeque<(&'static str, Vec<u64>)>) {
    match src {
        Keys => {
            for _ in 0..1 + rng.below(6) {
                match rng.weighted(&[10, 4, 2, 1, 2]) {
                    0 if swarm.grammar > 0 && rng.permille(swarm.grammar) => {
                        let n = 1 + rng.skewed(6);
                        q.push_back(("term", vec![n, rng.below(1 << 30)]));
                    }
                    0 => {
                        let n = match rng.below(200) {
                            0 => rng.range(10, 300),
                            1..=30 => rng.below(4),
                            _ => 1,
                        };
                        q.push_back((
                            "type",
                            (0..n).map(|_| rng.below(swarm.letters)).collect(),
                        ))
                    }
                    1 => q.push_back(("remove", vec![0])),
                    2 => q.push_back(("remove", vec![1])),
                    3 => q.push_back(("remove", vec![2])),
                    _ => q.push_back(("move", vec![arrow(rng)])),
                }
            }
        }
        Rules => {
            // types a rule's text, sometimes with slips, and walks away
            let r = rng.below(64);
            let n = if rng.permille(600) { 12 } else { 1 + rng.below(8) };
            let from = if rng.permille(850) { 0 } else { rng.below(4) };
            for i in from..n {
                q.push_back(("rule", vec![r, i, (n == 12) as u64]));
                if rng.permille(swarm.slips) {
                    match rng.below(7) {
                        0 => q.push_back(("remove", vec![0])),
                        1 => q.push_back(("move", vec![0])),
                        2 => {
                            q.push_back(("move", vec![0]));
                            q.push_back(("move", vec![1]));
                        }
                        3 => q.push_back(("ac_nav", vec![rng.below(2)])),
                        4 => q.push_back(("chunk", vec![r, i, 1 + rng.below(3)])),
                        5 => q.push_back(("undo", vec![])),
                        _ => q.push_back(("type", vec![rng.below(swarm.letters)])),
                    }
                }
            }
            match rng.below(12) {
                0 | 1 => q.push_back(("ac_accept", vec![])),
                2 => {
                    q.push_back(("ac_nav", vec![rng.below(2)]));
                    q.push_back(("ac_accept", vec![]));
                }
                3 | 4 => q.push_back(("move", vec![1])),
                5 => q.push_back(("move", vec![2 + rng.below(2)])),
                6 => {
                    let [a, b] = near(rng);
                    q.push_back(("down", vec![a, b, 0]));
                }
                7 => {
                    q.push_back(("select", vec![arrow(rng)]));
                    q.push_back(("select", vec![arrow(rng)]));
                }
                8 => {
                    q.push_back(("move", vec![0]));
                    q.push_back(("move", vec![0]));
                }
                9 => q.push_back(("remove", vec![1])),
                10 => {
                    q.push_back(("splice", vec![rng.below(64), rng.below(9), rng.below(3), rng.below(3), rng.below(1 << 20)]));
                    q.push_back(("move", vec![1]));
                }
                _ => {
                    let [a, b] = near(rng);
                    q.push_back(("drag", vec![a, b]));
                }
            }
            if rng.permille(300) {
                q.push_back(("undo", vec![]));
                if rng.permille(600) {
                    q.push_back(("undo", vec![]));
                }
                if rng.permille(600) {
                    q.push_back(("redo", vec![]));
                    q.push_back(("redo", vec![]));
                }
            }
        }
        Arrows => {
            let d = arrow(rng);
            for _ in 0..1 + rng.below(7) {
                let d = if rng.permille(700) { d } else { arrow(rng) };
                if rng.permille(swarm.shift) {
                    q.push_back(("select", vec![d]));
                } else {
                    q.push_back(("move", vec![d]));
                }
            }
            if rng.permille(150) {
                q.push_back(("remove", vec![rng.below(3)]));
            }
        }
        Pointer => {
            if rng.permille(swarm.tables) {
                q.push_back((
                    "drag_cells",
                    vec![rng.below(16), rng.below(40), rng.below(40), rng.below(40)],
                ));
            } else {
                let [a, b] = near(rng);
                if rng.permille(850) {
                    q.push_back(("down", vec![a, b, rng.below(3)]));
                }
                for _ in 0..rng.below(4) {
                    let [a, b] = near(rng);
                    q.push_back(("drag", vec![a, b]));
                }
            }
            q.push_back(("up", vec![]));
            match rng.below(8) {
                0 => q.push_back(("type", vec![rng.below(swarm.letters)])),
                1 => q.push_back(("remove", vec![rng.below(3)])),
                2 => q.push_back(("all", vec![])),
                3 => q.push_back(("focus", vec![rng.below(2)])),
                _ => {}
            }
        }
        Clipboard => {
            match rng.below(6) {
                0 => q.push_back(("all", vec![])),
                1 | 2 | 3 => {
                    let [a, b] = near(rng);
                    q.push_back(("down", vec![0, b, 0]));
                    let _ = a;
                    for _ in 0..1 + rng.below(4) {
                        q.push_back(("select", vec![rng.below(2)]));
                    }
                }
                4 => {
                    let [a, b] = near(rng);
                    q.push_back(("drag", vec![a, b]));
                }
                _ => {}
            }
            if rng.permille(850) {
                q.push_back((if rng.permille(250) { "cut" } else { "copy" }, vec![]));
            }
            if rng.permille(swarm.faults) {
                let at = if rng.permille(500) { rng.below(40) } else { rng.below(2000) };
                match rng.below(6) {
                    0 => q.push_back(("clip_lost", vec![])),
                    1 => q.push_back(("clip_truncated", vec![rng.below(2000)])),
                    2 | 3 => q.push_back(("clip_damaged", vec![rng.below(6), at, rng.below(64)])),
                    4 => q.push_back(("clip_foreign", vec![rng.below(26), rng.below(2000)])),
                    _ => q.push_back(("clip_saved", vec![rng.below(2)])),
                }
            }
            for _ in 0..rng.below(3) {
                if rng.permille(600) {
                    let [a, b] = near(rng);
                    q.push_back(("down", vec![a, b, 0]));
                }
                q.push_back(("paste", vec![]));
                if rng.permille(350) {
                    q.push_back(("undo", vec![]));
                    if rng.permille(600) {
                        q.push_back(("redo", vec![]));
                    }
                }
            }
        }
        History => {
            if rng.permille(120) {
                q.push_back(("undo_all", vec![]));
                if rng.permille(600) {
                    q.push_back(("redo_all", vec![]));
                }
            } else {
                for _ in 0..1 + rng.below(5) {
                    q.push_back(("undo", vec![]));
                }
                for _ in 0..rng.below(5) {
                    q.push_back(("redo", vec![]));
                }
            }
        }
        Popup => {
            for _ in 0..1 + rng.below(3) {
                match rng.below(4) {
                    0 => q.push_back(("ac_open", vec![])),
                    _ => q.push_back(("ac_nav", vec![rng.below(2)])),
                }
            }
            match rng.below(4) {
                0 => q.push_back(("ac_reject", vec![])),
                1 => {}
                _ => q.push_back(("ac_accept", vec![])),
            }
        }
        Host if swarm.grammar > 0 && rng.permille(swarm.grammar) => q.push_back((
            "term_splice",
            vec![
                rng.below(64),
                rng.below(20),
                rng.skewed(8),
                1 + rng.skewed(30),
                rng.below(1 << 30),
            ],
        )),
        Host => q.push_back((
            "splice",
            vec![
                if rng.permille(100) { rng.below(4000) } else { rng.below(64) },
                if rng.permille(100) { rng.below(4000) } else { rng.below(20) },
                if rng.permille(20) { rng.below(300) } else { rng.skewed(8) },
                if rng.permille(50) { rng.below(48) } else { rng.skewed(6) },
                rng.below(1 << 20),
            ],
        )),
        Screen => {
            for _ in 0..1 + rng.below(3) {
                q.push_back(("screen", vec![1 + rng.below(3)]));
            }
        }
        Life => match rng.below(5) {
            0 => q.push_back(("save", vec![])),
            1 | 2 => q.push_back(("restart", vec![rng.below(2)])),
            _ => q.push_back(("reset", vec![rng.below(3)])),
        },
        Sweep => q.push_back(("sweep", vec![rng.below(6)])),
    }
}

struct Swarm {
    /// types and splices expressions of the declared operators
    grammar: u64,
    letters: u64,
    slips: u64,
    shift: u64,
    tables: u64,
    faults: u64,
}

pub fn generate(prop: &str, thorough: bool, rng: &mut Rng) -> Plan {
    let mut plan = Plan::default();
    gen::swarm_shape(rng, &mut plan);
    plan.cfg.insert("max_depth".into(), 1 + rng.below(4));
    let big = plan.cfg("doc_n") > 100;
    plan.cfg.insert("max_size".into(), if big { 900 } else { 260 });
    if plan.cfg("deep") > 6 {
        plan.cfg.insert("deep".into(), 6);
    }
    let parser = match prop {
        "C13" => [1, 2, 3, 2][rng.usize(4)],
        "C15" => [0, 0, 0, 1, 2][rng.usize(5)],
        _ => rng.below(4),
    };
    plan.cfg.insert("parser".into(), parser);
    plan.cfg.insert("rules_seed".into(), rng.below(1 << 30));
    let editors = match prop {
        "C14" => 2 + rng.below(3),
        "C11" => 1 + rng.below(3),
        _ => 1 + rng.below(8) / 6,
    };
    plan.cfg.insert("editors".into(), editors);
    let syntax = prop == "C16" || prop == "C17";
    if syntax || (matches!(prop, "C12" | "C14") && rng.permille(400)) {
        let g = if rng.permille(750) { 1 + rng.below(1 << 30) } else { 0 };
        plan.cfg.insert("grammar".into(), g);
        if prop == "C17" && rng.permille(800) {
            // nothing but terms
            plan.cfg.insert("doc_n".into(), 0);
            plan.cfg.insert("deep".into(), 0);
        }
    }
    let swarm = Swarm {
        grammar: match prop {
            "C16" => *rng.pick(&[100, 500, 850]),
            "C17" => *rng.pick(&[700, 950, 1000]),
            _ => 0,
        },
        letters: *rng.pick(&[3, 5, 12, SYMBOLS.len() as u64, SYMBOLS.len() as u64]),
        slips: *rng.pick(&[0, 60, 200, 400]),
        shift: *rng.pick(&[0, 200, 600]),
        tables: *rng.pick(&[0, 0, 150, 500]),
        faults: *rng.pick(&[0, 300, 800]),
    };
    // sources that are switched off in this run
    let mut w = weights(prop);
    for x in w.iter_mut() {
        if rng.permille(250) {
            *x = 0;
        }
    }
    if w.iter().sum::<u64>() == 0 {
        w = weights(prop);
    }
    let len = if rng.permille(5) {
        rng.range(300, 1500)
    } else if thorough {
        rng.range(20, 160)
    } else {
        rng.range(10, 70)
    };
    // every editor's sources run side by side; the scheduler picks whose next
    // event comes, and now and then holds a source up
    let mut queues: Vec<(u64, Source, u64, VecDeque<(&'static str, Vec<u64>)>)> = vec![];
    for e in 0..editors {
        for (i, s) in SOURCES.iter().enumerate() {
            if w[i] > 0 {
                queues.push((e, *s, w[i], VecDeque::new()));
            }
        }
    }
    let sticky = *rng.pick(&[0, 500, 850, 950]);
    let mut last = 0usize;
    let mut held: Vec<u64> = vec![0; queues.len()];
    let mut tick = 0;
    while (plan.steps.len() as u64) < len && tick < 4 * len {
        tick += 1;
        let open: Vec<u64> = queues
            .iter()
            .zip(&held)
            .map(|(q, h)| if *h > tick { 0 } else { q.2 })
            .collect();
        if open.iter().sum::<u64>() == 0 {
            continue;
        }
        if queues[last].3.is_empty() || !rng.permille(sticky) || held[last] > tick {
            last = rng.weighted(&open);
        }
        if queues[last].3.is_empty() {
            let s = queues[last].1;
            burst(s, rng, &swarm, &mut queues[last].3);
        }
        if rng.permille(20) {
            held[last] = tick + rng.range(2, 12);
        }
        if let Some((op, mut a)) = queues[last].3.pop_front() {
            let mut args = vec![queues[last].0, dt(rng)];
            args.append(&mut a);
            plan.steps.push(Step::new(op, args));
        }
    }
    if prop == "C08" || rng.permille(150) {
        plan.cfg.insert("end_undo".into(), 1);
    }
    if prop == "C15" {
        let n = 1 + rng.below(3);
        for _ in 0..n {
            let a = vec![rng.below(editors), 10, rng.below(6)];
            plan.steps.push(Step::new("sweep", a));
        }
    }
    plan
}

// ----------------------------------------------------------------- executing

struct Clip {
    text: String,
    /// the content, when the text is exactly what a copy wrote
    nodes: Option<Vec<MNode>>,
}

struct Page<'a> {
    setup: Setup,
    parser: Rc<MathParser>,
    rules: Rc<Vec<crate::rules::Rule>>,
    /// a parser of the oracle's own
    fresh: Rc<Built>,
    eds: Vec<Session>,
    /// finished lives, for the comparison with editors that are alone
    past: Vec<Session>,
    clip: Option<Clip>,
    saved: Option<String>,
    stored_clip: Option<(String, Option<Vec<MNode>>)>,
    plan: &'a Plan,
}

fn place_near(s: &Session, near: u64, n: u64) -> P {
    let all = places(&s.m.doc);
    let at = all.iter().position(|p| *p == s.m.end).unwrap_or(0);
    let i = if near % 2 == 1 {
        // -4..=4 around the caret
        (at as i64 + (n % 9) as i64 - 4).clamp(0, all.len() as i64 - 1) as usize
    } else {
        (n % all.len() as u64) as usize
    };
    all[i].clone()
}

fn room(s: &Session, max: usize, path: &[(usize, usize)], nodes: &[MNode]) -> bool {
    let v = nodes.to_vec();
    treekit::size(&s.m.doc) + treekit::size(&v) <= max
        && path.len() + treekit::depth(&v) <= MAX_DEPTH
}

fn content(shape: &gen::Shape, n: u64, seed: u64) -> Vec<MNode> {
    gen::nodes(&mut Rng::new(seed ^ 0xED), shape, n)
}

impl<'a> Page<'a> {
    fn max_size(&self) -> usize {
        self.plan.cfg("max_size").clamp(260, 70_000) as usize
    }

    fn open(&mut self) -> Session {
        let mut s = Session::new(self.parser.clone(), Model::new(self.rules.clone()));
        s.keep_acts = self.plan.cfg("keep") == 1;
        s.reads_anything = self.plan.cfg("read_any") == 1;
        s
    }

    fn go(&mut self, ctx: &mut Ctx, e: usize, ev: Ev) -> Result<Ret, Stop> {
        let r = self.eds[e].event(ctx, &ev)?;
        Ok(r)
    }

    fn type_text(&mut self, ctx: &mut Ctx, e: usize, s: Vec<String>) -> Result<(), Stop> {
        if treekit::size(&self.eds[e].m.doc) + s.len() <= self.max_size() {
            self.go(ctx, e, Ev::Type(s))?;
        }
        Ok(())
    }

    fn step(&mut self, ctx: &mut Ctx, step: &Step) -> Result<(), Stop> {
        let e = (step.arg(0) % self.eds.len() as u64) as usize;
        let wait = step.arg(1);
        ctx.now_us += wait * 1000;
        if wait >= 200 {
            ctx.count("fault.source_held_up");
        }
        let op: &str = &step.op;
        ctx.event(format_args!("step {op} {:?}", step.a));
        ctx.sched(op, e as u64);
        let a = |i: usize| step.arg(i + 2);
        match op {
            "type" => {
                let s = step
                    .a
                    .get(2..)
                    .unwrap_or(&[])
                    .iter()
                    .map(|c| SYMBOLS[(*c % SYMBOLS.len() as u64) as usize].to_string())
                    .collect();
                self.type_text(ctx, e, s)?;
            }
            "term" => {
                let mut rng = Rng::new(a(1) ^ 0x7E);
                let row = self.fresh.grammar.row(&mut rng, a(0) % 40, 0, &mut 2);
                let s = row.into_iter().filter_map(|n| match n {
                    MNode::Sym(s) => Some(s),
                    MNode::Box(..) => None,
                });
                let s: Vec<String> = s.collect();
                // key by key, or at once
                if a(1) % 3 == 0 {
                    self.type_text(ctx, e, s)?;
                } else {
                    for k in s {
                        self.type_text(ctx, e, vec![k])?;
                    }
                }
            }
            "term_splice" => {
                let doc = self.eds[e].m.doc.clone();
                let rows = treekit::rows(&doc);
                let path = rows[(a(0) % rows.len() as u64) as usize].clone();
                let len = row_at(&doc, &path).unwrap().len() as u64;
                let s = a(1) % (len + 1);
                let t = (s + a(2)).min(len);
                let mut rng = Rng::new(a(4) ^ 0x7F);
                let values = self.fresh.grammar.row(&mut rng, a(3) % 60, 2, &mut 8);
                if room(&self.eds[e], self.max_size(), &path, &values) {
                    self.go(ctx, e, Ev::Splice(path, s as usize, t as usize, values))?;
                }
            }
            "rule" | "chunk" => {
                if !self.rules.is_empty() {
                    let r = &self.rules[(a(0) % self.rules.len() as u64) as usize];
                    let chars: Vec<char> = r.text.chars().collect();
                    // the whole text once, or any part of it
                    if op == "rule" && a(2) == 1 && a(1) as usize >= chars.len() {
                        return Ok(());
                    }
                    let i = (a(1) % chars.len() as u64) as usize;
                    let n = if op == "rule" {
                        1
                    } else {
                        (1 + a(2) as usize % 4).min(chars.len() - i)
                    };
                    let s: String = chars[i..i + n].iter().collect();
                    self.type_text(ctx, e, vec![s])?;
                }
            }
            "move" => {
                self.go(ctx, e, Ev::Move(DIRS[(a(0) % 4) as usize]))?;
            }
            "select" => {
                self.go(ctx, e, Ev::Select(DIRS[(a(0) % 4) as usize]))?;
            }
            "remove" => {
                let m = [Rm::Left, Rm::Right, Rm::Range][(a(0) % 3) as usize];
                self.go(ctx, e, Ev::Remove(m))?;
            }
            "all" => {
                self.go(ctx, e, Ev::SelectAll)?;
            }
            "undo" => {
                self.go(ctx, e, Ev::Undo)?;
            }
            "redo" => {
                self.go(ctx, e, Ev::Redo)?;
            }
            "undo_all" => self.walk(ctx, e, true)?,
            "redo_all" => self.walk(ctx, e, false)?,
            "down" => {
                let p = place_near(&self.eds[e], a(0), a(1));
                self.go(ctx, e, Ev::Start(p, a(2) as u8))?;
            }
            "drag" => {
                let p = place_near(&self.eds[e], a(0), a(1));
                self.go(ctx, e, Ev::Extend(p))?;
            }
            "drag_cells" => {
                let t = treekit::tables(&self.eds[e].m.doc);
                let t: Vec<_> = t.into_iter().filter(|t| t.3 > 0).collect();
                if !t.is_empty() {
                    let (path, idx, w, h) = t[(a(0) % t.len() as u64) as usize].clone();
                    let place = |c: u64, o: u64, doc: &treekit::MRow| {
                        let mut p = path.clone();
                        p.push((idx, (c % (w * h) as u64) as usize));
                        let len = row_at(doc, &p).unwrap().len() as u64;
                        (p, (o % (len + 1)) as usize)
                    };
                    let doc = self.eds[e].m.doc.clone();
                    self.go(ctx, e, Ev::Start(place(a(1), a(3), &doc), 0))?;
                    // the press may have autocorrected
                    if Rc::ptr_eq(&doc, &self.eds[e].m.doc) {
                        self.go(ctx, e, Ev::Extend(place(a(2), a(3), &doc)))?;
                    }
                }
            }
            "up" => {
                self.go(ctx, e, Ev::Finish)?;
            }
            "focus" => {
                self.go(ctx, e, Ev::Focus(a(0) % 2 == 1))?;
            }
            "copy" | "cut" => {
                let r = self.go(ctx, e, Ev::Copy)?;
                if let Ret::Copied(Ok(text)) = r {
                    let nodes = match self.eds[e].m.sel() {
                        Sel::Row { path, start, end } => {
                            let row = row_at(&self.eds[e].m.doc, &path).unwrap();
                            Some(row[start.min(end)..start.max(end)].to_vec())
                        }
                        _ => None,
                    };
                    if nodes.as_ref().map(|n| !n.is_empty()).unwrap_or(false) {
                        ctx.count("probe.copied_content");
                    }
                    if self.clip.is_some() {
                        ctx.count("fault.clipboard_overwritten");
                    }
                    self.clip = Some(Clip { text, nodes });
                }
                if op == "cut" {
                    self.go(ctx, e, Ev::Remove(Rm::Range))?;
                }
            }
            "clip_lost" => {
                ctx.count("fault.clipboard_lost");
                self.clip = None;
            }
            "clip_truncated" => {
                if let Some(c) = &mut self.clip {
                    ctx.count("fault.clipboard_truncated");
                    let t = clip::truncate(&c.text, a(0));
                    if t != c.text {
                        c.nodes = None;
                    }
                    c.text = t;
                }
            }
            "clip_damaged" => {
                if let Some(c) = &mut self.clip {
                    ctx.count("fault.clipboard_damaged");
                    let t = clip::damage(&c.text, a(0), a(1), a(2));
                    if t != c.text {
                        c.nodes = None;
                    }
                    c.text = t;
                }
            }
            "clip_foreign" => {
                ctx.count("fault.clipboard_from_elsewhere");
                let text = clip::foreign(a(0), a(1));
                self.clip = Some(Clip { text, nodes: None });
            }
            "clip_saved" => {
                // the front end's own writer, and a clipboard manager
                if let Some(c) = &mut self.clip {
                    if a(0) % 2 == 0 {
                        if let Some(n) = &c.nodes {
                            ctx.count("fault.clipboard_rewritten_by_front_end");
                            c.text = treekit::codec::envelope(n).to_string();
                        }
                    } else {
                        ctx.count("fault.clipboard_saved_and_restored");
                        self.stored_clip = Some((
                            serde_json::to_string(&c.text).unwrap(),
                            c.nodes.clone(),
                        ));
                    }
                }
            }
            "paste" => {
                let Some(c) = &self.clip else {
                    ctx.count("probe.nothing_to_paste");
                    return Ok(());
                };
                let (text, nodes) = (c.text.clone(), c.nodes.clone());
                let ed = &self.eds[e];
                if let Some(n) = nodes.clone().or_else(|| clip::decode(&text)) {
                    if !room(ed, self.max_size(), &ed.m.end.0, &n) {
                        return Ok(());
                    }
                }
                if nodes.is_some() {
                    ctx.count("probe.intact_paste");
                }
                self.go(ctx, e, Ev::Paste(text, nodes))?;
            }
            "open" => {
                let n = (a(0) as usize).min(40);
                self.type_text(ctx, e, vec!["(".to_string(); n])?;
            }
            "fill" => {
                // a long row, all at once
                let n = (a(0) as usize).min(self.max_size());
                let values = (0..n)
                    .map(|i| MNode::Sym(["a", "b", "é"][i % 3].to_string()))
                    .collect();
                self.go(ctx, e, Ev::Splice(vec![], 0, 0, values))?;
            }
            "nest" => {
                // one more level, inside the innermost first cell
                let doc = self.eds[e].m.doc.clone();
                let rows = treekit::rows(&doc);
                let path = rows.iter().max_by_key(|p| p.len()).unwrap().clone();
                let inner = vec![MNode::Box(treekit::Kind::Sup, 1, vec![vec![]])];
                if path.len() < 40 {
                    self.go(ctx, e, Ev::Splice(path, 0, 0, inner))?;
                }
            }
            "paste_deep" => {
                if let Some((t, n)) = self.clip.as_ref().map(|c| (c.text.clone(), c.nodes.clone())) {
                    if treekit::depth(&self.eds[e].m.doc) < 60 {
                        self.go(ctx, e, Ev::Paste(t, n))?;
                    }
                }
            }
            "ac_open" => {
                self.go(ctx, e, Ev::AcOpen)?;
            }
            "ac_accept" | "ac_reject" => {
                if treekit::depth(&self.eds[e].m.doc) < MAX_DEPTH {
                    self.go(ctx, e, Ev::AcFinish(op == "ac_accept"))?;
                }
            }
            "ac_nav" => {
                self.go(ctx, e, Ev::AcMove(a(0) % 2 == 0))?;
            }
            "splice" => {
                let doc = self.eds[e].m.doc.clone();
                let rows = treekit::rows(&doc);
                let path = rows[(a(0) % rows.len() as u64) as usize].clone();
                let len = row_at(&doc, &path).unwrap().len() as u64;
                let s = a(1) % (len + 1);
                let t = (s + a(2)).min(len);
                let values = content(&gen::shape_from(self.plan), a(3) % 48, a(4));
                if room(&self.eds[e], self.max_size(), &path, &values) {
                    // either direction
                    let (s, t) = if a(4) % 3 == 0 { (t, s) } else { (s, t) };
                    self.go(ctx, e, Ev::Splice(path, s as usize, t as usize, values))?;
                }
            }
            "screen" => {
                if a(0) & 1 != 0 {
                    self.eds[e].offers(ctx)?;
                }
                if a(0) & 2 != 0 {
                    let fresh = self.fresh.clone();
                    self.eds[e].tree(ctx, &fresh)?;
                }
            }
            "save" => self.save(ctx, e)?,
            "restart" => {
                // the page is closed and opened again: what was saved remains
                ctx.count("fault.page_restarted");
                if a(0) % 2 == 0 {
                    self.save(ctx, e)?;
                }
                for i in 0..self.eds.len() {
                    let s = self.open();
                    let old = std::mem::replace(&mut self.eds[i], s);
                    self.past.push(old);
                }
                self.parser = self.setup.build().parser;
                for i in 0..self.eds.len() {
                    // editors of the new page use the new page's parser
                    self.eds[i] = self.open();
                }
                self.clip = self.stored_clip.clone().map(|(t, nodes)| Clip {
                    text: serde_json::from_str(&t).unwrap(),
                    nodes,
                });
                if let Some(text) = self.saved.clone() {
                    let row: input_tree::row::InputRow = match guard(|| {
                        serde_json::from_str(&text).map_err(|e| e.to_string())
                    }) {
                        Ok(Ok(r)) => r,
                        Ok(Err(e)) => {
                            return Err(Stop::Foreign(format!("loading the saved document: {e}")))
                        }
                        Err(p) => return Err(Stop::Foreign(p.message)),
                    };
                    let nodes = treekit::real::row_from_real(&row).map_err(Stop::Foreign)?;
                    self.go(ctx, e, Ev::Splice(vec![], 0, 0, nodes))?;
                }
            }
            "reset" => match a(0) % 3 {
                0 if self.eds.len() < 5 => {
                    ctx.count("fault.editor_created");
                    let s = self.open();
                    self.eds.push(s);
                }
                1 if self.eds.len() > 1 => {
                    ctx.count("fault.editor_dropped");
                    let s = self.eds.remove(e);
                    self.past.push(s);
                }
                _ => {
                    ctx.count("fault.editor_replaced");
                    let s = self.open();
                    let old = std::mem::replace(&mut self.eds[e], s);
                    self.past.push(old);
                }
            },
            "sweep" => self.sweep(ctx, e, a(0))?,
            _ => {}
        }
        Ok(())
    }

    fn save(&mut self, ctx: &mut Ctx, e: usize) -> Result<(), Stop> {
        ctx.count("op.save");
        self.saved = match guard(|| serde_json::to_string(self.eds[e].ed.get_input_tree())) {
            Ok(Ok(s)) => Some(s),
            _ => None,
        };
        Ok(())
    }

    fn walk(&mut self, ctx: &mut Ctx, e: usize, undo: bool) -> Result<(), Stop> {
        let n = if undo {
            self.eds[e].m.undo.len()
        } else {
            self.eds[e].m.redo.len()
        };
        // and once more than there is
        for _ in 0..n + 1 {
            self.go(ctx, e, if undo { Ev::Undo } else { Ev::Redo })?;
        }
        Ok(())
    }

    /// Presses one key until nothing happens any more.
    fn sweep(&mut self, ctx: &mut Ctx, e: usize, kind: u64) -> Result<(), Stop> {
        let c15 = ctx.is("C15");
        let s = &self.eds[e];
        if treekit::size(&s.m.doc) > 450 || s.m.sel().is_grid() {
            return Ok(());
        }
        let doc = s.m.doc.clone();
        let all = places(&doc);
        let Sel::Row { path, start, end } = s.m.sel() else {
            return Ok(());
        };
        let (l, r) = (
            (path.clone(), start.min(end)),
            (path.clone(), start.max(end)),
        );
        ctx.count(
            [
                "op.sweep_right",
                "op.sweep_left",
                "op.sweep_up",
                "op.sweep_down",
                "op.sweep_backspace",
                "op.sweep_delete",
            ][(kind % 6) as usize],
        );
        match kind % 6 {
            k @ (0 | 1) => {
                let right = k == 0;
                // every place beyond the caret, once each, in order
                let want: Vec<P> = if right {
                    all.iter().filter(|p| cmp_places(p, &r).is_gt()).cloned().collect()
                } else {
                    all.iter().rev().filter(|p| cmp_places(p, &l).is_lt()).cloned().collect()
                };
                let dir = if right { Dir::Right } else { Dir::Left };
                for w in &want {
                    self.go(ctx, e, Ev::Move(dir))?;
                    if !Rc::ptr_eq(&doc, &self.eds[e].m.doc) {
                        // an autocorrection: its own property
                        ctx.count("probe.sweep_autocorrected");
                        return Ok(());
                    }
                    if c15 {
                        ctx.count("oracle.sweep_place");
                        self.caret_is(ctx, e, w, "arrow-skips-a-place")?;
                    }
                }
                if start != end && want.is_empty() {
                    self.go(ctx, e, Ev::Move(dir))?;
                }
                let before = reported(&self.eds[e].ed).ok();
                self.go(ctx, e, Ev::Move(dir))?;
                if c15 && reported(&self.eds[e].ed).ok() != before {
                    ctx.fail("arrow-does-not-stop", format!("{dir:?} moved on at the end of the document"))?;
                }
            }
            k @ (2 | 3) => {
                let dir = if k == 2 { Dir::Up } else { Dir::Down };
                let bound = treekit::rows(&doc).len() + 2;
                for i in 0.. {
                    let before = reported(&self.eds[e].ed).ok();
                    self.go(ctx, e, Ev::Move(dir))?;
                    if reported(&self.eds[e].ed).ok() == before
                        || !Rc::ptr_eq(&doc, &self.eds[e].m.doc)
                    {
                        break;
                    }
                    if i > bound {
                        ctx.fail_for(&["C15"], "arrow-does-not-stop", format!("{dir:?} still moves after {i} presses in a document of {} rows", bound - 2))?;
                        break;
                    }
                }
            }
            _ if !usual_shapes(&doc) => ctx.count("probe.odd_construct_not_swept"),
            k => {
                let left = k == 4;
                let mode = if left { Rm::Left } else { Rm::Right };
                // what must remain: the symbols on the other side
                let keep = symbols_beyond(&doc, if left { &r } else { &l }, left);
                let bound = 2 * all.len() + 4 * treekit::size(&doc) + 4;
                for i in 0.. {
                    let sel = self.eds[e].m.sel();
                    let len = self.eds[e].m.doc.len();
                    if let Sel::Row { path, start, end } = &sel {
                        if path.is_empty()
                            && start == end
                            && *start == if left { 0 } else { len }
                        {
                            break;
                        }
                    }
                    let before = (self.eds[e].m.doc.clone(), sel);
                    let d = self.eds[e].m.undo.len();
                    self.go(ctx, e, Ev::Remove(mode))?;
                    if self.eds[e].m.undo.len() > d + 1 {
                        ctx.count("probe.sweep_autocorrected");
                        return Ok(());
                    }
                    if self.eds[e].m.undo.last().map(|x| x.why) == Some(Why::Auto)
                        && self.eds[e].m.undo.len() > d
                    {
                        return Ok(());
                    }
                    if c15 {
                        ctx.count("oracle.sweep_deletion");
                        if i > bound {
                            ctx.fail("deletion-does-not-end", format!("{mode:?} still acts after {i} presses in {}", treekit::show(&doc)))?;
                            return Ok(());
                        }
                        let now = treekit::real::row_from_real(self.eds[e].ed.get_input_tree())
                            .map_err(Stop::Foreign)?;
                        if reported(&self.eds[e].ed).ok() == Some(vec![before.1.clone()])
                            && now == *before.0
                        {
                            ctx.fail("deletion-stuck", format!("{mode:?} does nothing in {} at {:?}", treekit::show(&now), before.1))?;
                            return Ok(());
                        }
                    } else if i > bound {
                        break;
                    }
                }
                if c15 {
                    let now = treekit::real::row_from_real(self.eds[e].ed.get_input_tree())
                        .map_err(Stop::Foreign)?;
                    let left_over = symbols_beyond(&now, &(vec![], if left { 0 } else { now.len() }), left);
                    let all = symbols_beyond(&now, &(vec![], 0), true);
                    if left_over != keep || all != keep {
                        ctx.fail(
                            "deletion-result",
                            format!(
                                "{mode:?} until nothing is left turned {} into {}, the symbols {:?} should remain",
                                treekit::show(&doc), treekit::show(&now), keep
                            ),
                        )?;
                    }
                }
            }
        }
        Ok(())
    }

    fn caret_is(&mut self, ctx: &mut Ctx, e: usize, w: &P, sig: &str) -> Result<(), Stop> {
        let got = reported(&self.eds[e].ed).unwrap_or_default();
        let want = Sel::Row {
            path: w.0.clone(),
            start: w.1,
            end: w.1,
        };
        if got != vec![want.clone()] {
            ctx.fail(sig, format!("the caret is at {got:?}, expected {want:?}"))?;
        }
        Ok(())
    }
}

/// Whether every construct has the cells that the editor gives it; damaged
/// clipboard text can bring others (a superscript with four cells), of which
/// it is not said what deleting in them leaves.
fn usual_shapes(row: &treekit::MRow) -> bool {
    use treekit::Kind::*;
    row.iter().all(|n| match n {
        MNode::Sym(_) => true,
        MNode::Box(k, w, cells) => {
            (match k {
                Frac => (*w, cells.len()) == (1, 2),
                Root => (*w, cells.len()) == (2, 2),
                Sup | Sub => (*w, cells.len()) == (1, 1),
                Table => !cells.is_empty(),
            }) && cells.iter().all(usual_shapes)
        }
    })
}

/// Symbols after (or before) a place, in document order.
fn symbols_beyond(doc: &treekit::MRow, p: &P, after: bool) -> Vec<String> {
    fn go(
        row: &treekit::MRow,
        path: &mut treekit::Path,
        p: &P,
        after: bool,
        out: &mut Vec<String>,
    ) {
        for (i, n) in row.iter().enumerate() {
            match n {
                MNode::Sym(s) => {
                    let at = (path.clone(), if after { i } else { i + 1 });
                    let o = cmp_places(&at, p);
                    if (after && o.is_ge()) || (!after && o.is_le()) {
                        out.push(s.clone());
                    }
                }
                MNode::Box(_, _, cells) => {
                    for (c, r) in cells.iter().enumerate() {
                        path.push((i, c));
                        go(r, path, p, after, out);
                        path.pop();
                    }
                }
            }
        }
    }
    let mut out = vec![];
    go(doc, &mut vec![], p, after, &mut out);
    out
}

pub fn run(plan: &Plan, ctx: &mut Ctx) -> Result<(), Stop> {
    let setup = Setup::from_plan(plan);
    let Built { parser, rules, .. } = setup.build();
    let fresh = Rc::new(setup.build());
    let c14 = ctx.is("C14");
    let mut keep = plan.clone();
    keep.cfg.insert("keep".into(), c14 as u64);
    let mut page = Page {
        setup,
        parser,
        rules: Rc::new(rules),
        fresh,
        eds: vec![],
        past: vec![],
        clip: None,
        saved: None,
        stored_clip: None,
        plan: &keep,
    };
    let n = plan.cfg("editors").clamp(1, 5);
    for i in 0..n {
        let s = page.open();
        page.eds.push(s);
        let mut doc = gen::document(
            plan.cfg("doc_seed").wrapping_add(i),
            &gen::shape_from(plan),
            plan.cfg("doc_n"),
            plan.cfg("deep"),
        );
        while treekit::size(&doc) > page.max_size() {
            doc.pop();
        }
        if !doc.is_empty() {
            page.go(ctx, i as usize, Ev::Splice(vec![], 0, 0, doc))?;
        }
    }
    for step in &plan.steps {
        let undone = |p: &Page| p.eds.iter().map(|e| e.m.undo.len() + e.m.redo.len()).sum::<usize>();
        let before = undone(&page);
        page.step(ctx, step)?;
        if undone(&page) != before {
            ctx.nontrivial = true;
        }
    }
    if plan.cfg("end_undo") == 1 {
        for e in 0..page.eds.len() {
            page.walk(ctx, e, true)?;
            if ctx.is("C08") {
                ctx.count("oracle.all_undone");
                let s = &page.eds[e];
                if s.resynced == 0 && !s.ed.get_input_tree().values.is_empty() {
                    ctx.fail("undo-all", "undoing everything did not arrive at the initial (empty) document".into())?;
                }
            }
            page.walk(ctx, e, false)?;
            page.walk(ctx, e, true)?;
        }
    }
    if c14 {
        let lives: Vec<Session> = page.past.drain(..).chain(page.eds.drain(..)).collect();
        for (i, s) in lives.iter().enumerate() {
            alone(ctx, &page.setup, i, s)?;
        }
    }
    Ok(())
}

/// Replays one editor's events with a parser of its own.
fn alone(ctx: &mut Ctx, setup: &Setup, i: usize, s: &Session) -> Result<(), Stop> {
    let mut ed = MathEditor::new(setup.build().parser);
    for (k, (act, seen)) in s.acts.iter().enumerate() {
        ctx.count("oracle.same_as_alone");
        let got = match act {
            Act::Ev(ev) => match send(&mut ed, ev) {
                Ok(ret) => visible(&ed, &ret),
                Err(p) => hash_str(&p.message),
            },
            Act::Offers => match read_offers(&mut ed) {
                Ok(o) => hash_str(&format!("{o:?}")),
                Err(p) => hash_str(&p.message),
            },
            Act::Tree => match read_tree(&mut ed) {
                Ok(t) => hash_str(&t),
                Err(p) => hash_str(&p.message),
            },
        };
        if got != *seen {
            return ctx.fail(
                "not-as-alone",
                format!("editor life {i}: after event {k} ({act:?}) the editor differs from one that got the same events alone"),
            );
        }
    }
    Ok(())
}

pub fn fixed(prop: &str) -> Vec<(String, Plan)> {
    let mut out = vec![];
    let plan = |cfg: &[(&str, u64)], steps: Vec<Step>| {
        let mut p = Plan::default();
        for (k, v) in cfg {
            p.cfg.insert(k.to_string(), *v);
        }
        p.cfg.entry("editors".into()).or_insert(1);
        p.steps = steps;
        p
    };
    let s = |op: &'static str, a: &[u64]| {
        let mut v = vec![0, 10];
        v.extend(a);
        Step::new(op, v)
    };
    if !matches!(prop, "C12" | "C16" | "C17") {
        // a row that is too long for 16 bit offsets
        let mut steps = vec![s("fill", &[66_000])];
        for (i, at) in [65_990u64, 65_600, 66_010, 65_534].iter().enumerate() {
            let i = i as u64;
            steps.extend([
                s("down", &[0, *at, 0]),
                s("type", &[i, 30]),
                s("splice", &[0, *at + 3, i, i, 17 + i]),
                s("select", &[i % 2]),
                s("select", &[i % 2]),
                s("copy", &[]),
                s("remove", &[i % 3]),
                s("paste", &[]),
                s("move", &[i % 4]),
                s("remove", &[0]),
                s("undo", &[]),
                s("undo", &[]),
                s("redo", &[]),
            ]);
        }
        steps.push(s("undo_all", &[]));
        steps.push(s("redo_all", &[]));
        let p = plan(&[("max_size", 68_000), ("boxes", 500), ("max_depth", 2), ("max_cells", 2)], steps);
        out.push(("a row of more than 65536 elements".into(), p));
    }
    if prop == "C09" {
        // typing over selected table cells
        let mut steps = vec![
            s("clip_foreign", &[25, 0]),
            s("paste", &[]),
            s("drag_cells", &[0, 0, 3, 0]),
            s("type", &[0]),
        ];
        out.push(("typing over table cells".into(), plan(&[], steps.clone())));
        steps.pop();
        for op in ["remove", "copy", "paste", "select"] {
            let mut st = steps.clone();
            st.push(s(op, &[0]));
            out.push((format!("{op} with table cells selected"), plan(&[], st)));
        }
    }
    if prop == "C16" {
        // brackets that are opened and never closed
        let steps = vec![s("open", &[24]), s("screen", &[2])];
        out.push(("24 unclosed brackets".into(), plan(&[("read_any", 1), ("parser", 1)], steps)));
        // long rows of everything, and many closed brackets
        for (k, seed) in [(1u64, 3u64), (1, 8), (3, 77), (3, 5)] {
            let mut steps = vec![];
            for i in 0..40 {
                steps.push(s("term_splice", &[0, 7 * i, i % 2, 30, seed * 1000 + i]));
                steps.push(s("screen", &[2]));
            }
            out.push((format!("a long row of terms ({seed})"), plan(&[("max_size", 1100), ("parser", k), ("grammar", seed % 2)], steps)));
        }
    }
    if prop == "C11" {
        // a copy nested deeper than the reader goes
        let mut steps = vec![];
        for _ in 0..24 {
            steps.push(s("nest", &[]));
        }
        steps.extend([s("all", &[]), s("copy", &[]), s("paste_deep", &[])]);
        out.push(("deeply nested copy".into(), plan(&[], steps)));
    }
    out
}
