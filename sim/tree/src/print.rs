//! C07: printing into sinks that may fail.
use crate::common::*;
use input_tree::{
    editing::{editable::Editable, invertible::Invertible, BasicEdit},
    input_tree::InputTree,
};
use kernel::{guard, Ctx, Plan, Rng, Step, Stop};
use std::fmt::{self, Write};
use std::io;
use treekit::{gen, printed, real, MNode, MRow};

pub fn generate(thorough: bool, rng: &mut Rng) -> Plan {
    let mut plan = Plan::default();
    gen::swarm_shape(rng, &mut plan);
    if rng.permille(600) {
        plan.cfg.insert("alphabet".into(), [1, 1, 2, 4][rng.usize(4)]);
    }
    if rng.permille(60) {
        plan.cfg.insert("deep".into(), rng.range(20, 300));
    }
    let (low, high) = if thorough { (3, 40) } else { (2, 18) };
    let len = run_length(rng, &mut plan, 0, low, high);
    for _ in 0..len {
        let s = match rng.weighted(&[30, 25, 35, 12, 8]) {
            0 => {
                let mut a = vec![];
                for _ in 0..1 + rng.skewed(3) {
                    draw_edit(rng, 200, &mut a);
                }
                Step::new("edit", a)
            }
            1 => Step::new("print", vec![]),
            // [kind of failure, where, how long it lasts]
            2 => Step::new("failing_sink", vec![rng.below(3), rng.below(5000), rng.below(4)]),
            3 => Step::new("file_sink", vec![rng.below(1 << 30), rng.below(3), rng.below(5000)]),
            _ => Step::new("undo", vec![]),
        };
        plan.steps.push(s);
    }
    plan
}

pub fn fixed() -> Vec<(String, Plan)> {
    let mut v = vec![];
    for (name, mut plan) in gen::vast() {
        for e in vast_edits().into_iter().take(3) {
            plan.steps.push(Step::new("edit", e));
        }
        plan.steps.push(Step::new("print", vec![]));
        plan.steps.push(Step::new("failing_sink", vec![1, 4000, 1]));
        plan.steps.push(Step::new("file_sink", vec![3, 2, 0]));
        v.push((name.into(), plan));
    }
    v
}

/// A text sink that refuses some writes.
struct Sink {
    text: String,
    /// refuse by number of characters taken (0), by number of calls (1), or
    /// by the call that would exceed a capacity, taking none of it (2)
    kind: u64,
    limit: usize,
    /// how many calls fail (the sink works again afterwards)
    lasts: usize,
    calls: usize,
    failed: usize,
}

impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.calls += 1;
        let refuse = match self.kind {
            0 => self.text.len() >= self.limit,
            1 => self.calls > self.limit,
            _ => self.text.len() + s.len() > self.limit,
        };
        if refuse && self.failed < self.lasts {
            self.failed += 1;
            return Err(fmt::Error);
        }
        self.text.push_str(s);
        Ok(())
    }
}

/// A file that accepts a few bytes at a time, is interrupted, and fills up.
struct File {
    bytes: Vec<u8>,
    cap: usize,
    rng: Rng,
    mode: u64,
}
impl io::Write for File {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if self.mode > 0 && self.rng.permille(200) {
            return Err(io::ErrorKind::Interrupted.into());
        }
        if self.bytes.len() >= self.cap && !buf.is_empty() {
            return Err(io::Error::new(io::ErrorKind::Other, "no space left on device"));
        }
        let mut n = buf.len().min(self.cap - self.bytes.len());
        if self.mode > 1 && n > 0 {
            n = 1 + self.rng.usize(n);
        }
        self.bytes.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn full_text(ctx: &mut Ctx, tree: &InputTree) -> Result<String, Stop> {
    match guard(|| {
        let mut s = String::new();
        let r = write!(s, "{}", tree.root);
        (r.is_ok(), s)
    }) {
        Ok((true, s)) => Ok(s),
        Ok((false, _)) => {
            ctx.fail("print-fails", "printing to memory reports a failure".into())?;
            Err(Stop::Violated)
        }
        Err(p) => {
            ctx.unexpected_panic(&["C07"], "print", &p)?;
            Err(Stop::Violated)
        }
    }
}

fn excerpt(s: &str) -> String {
    let mut t: String = s.chars().take(300).collect();
    if t.len() < s.len() {
        t.push('…');
    }
    t
}

fn check_text(ctx: &mut Ctx, text: &str, doc: &MRow) -> Result<(), Stop> {
    ctx.count("oracle.text_reconstructs_document");
    match printed::parse(text) {
        Err(e) => ctx.fail(
            "text-unreadable",
            format!("{:?} is not the text of a document ({e}); it was {}", excerpt(text), treekit::show(doc)),
        ),
        Ok(back) if &back != doc => ctx.fail(
            "text-differs",
            format!(
                "{:?} describes {}, printed from {}",
                excerpt(text),
                treekit::show(&back),
                treekit::show(doc)
            ),
        ),
        Ok(_) => Ok(()),
    }
}

pub fn run(plan: &Plan, ctx: &mut Ctx) -> Result<(), Stop> {
    let shape = gen::shape_from(plan);
    let mut doc = gen::initial_document(plan);
    let mut tree = InputTree::new(real::row_to_real(&doc));
    let mut undo: Vec<(BasicEdit, MRow)> = vec![];
    for step in &plan.steps {
        ctx.now_us += 300;
        let op: &str = &step.op;
        ctx.event(format_args!("step {op} {:?}", step.a));
        ctx.sched(op, step.arg(1));
        match op {
            "edit" => {
                for e in resolve_batch(&doc, step, 0, &shape) {
                    let r = real::edit_to_real(&e);
                    let mut m = doc.clone();
                    let _ = treekit::apply(&mut m, &e);
                    if let Err(p) = guard(|| tree.apply_edit(&r)) {
                        return ctx.unexpected_panic(&[], "apply", &p);
                    }
                    if real::diff(&tree.root, &m).is_some() {
                        tree = InputTree::new(real::row_to_real(&m));
                    }
                    undo.push((r, std::mem::replace(&mut doc, m)));
                }
                ctx.state(treekit::hash_row(&doc));
            }
            "undo" => {
                if let Some((e, before)) = undo.pop() {
                    if guard(|| tree.apply_edit(&e.inverse())).is_err()
                        || real::diff(&tree.root, &before).is_some()
                    {
                        tree = InputTree::new(real::row_to_real(&before));
                    }
                    doc = before;
                }
            }
            "print" => {
                ctx.count("op.print");
                let text = full_text(ctx, &tree)?;
                check_text(ctx, &text, &doc)?;
                ctx.nontrivial |= !doc.is_empty();
                // parts print as they do inside the whole
                let mut joined = String::from("(row");
                for n in &tree.root.values {
                    match guard(|| n.to_string()) {
                        Ok(t) => {
                            joined.push(' ');
                            joined.push_str(&t);
                        }
                        Err(p) => return ctx.unexpected_panic(&["C07"], "print", &p),
                    }
                }
                joined.push(')');
                ctx.count("oracle.parts_make_the_whole");
                if joined != text {
                    return ctx.fail(
                        "parts-differ",
                        format!("{:?} from its parts, {:?} as a whole", excerpt(&joined), excerpt(&text)),
                    );
                }
                if doc.iter().any(|n| matches!(n, MNode::Sym(s) if s.contains(['"', '\\']))) {
                    ctx.count("probe.symbol_that_needs_escaping");
                }
            }
            "failing_sink" => {
                let text = full_text(ctx, &tree)?;
                let kind = step.arg(0) % 3;
                // count the calls of a full print to aim within them
                let mut probe = Sink {
                    text: String::new(),
                    kind: 1,
                    limit: usize::MAX,
                    lasts: 0,
                    calls: 0,
                    failed: 0,
                };
                let _ = guard(|| write!(probe, "{}", tree.root));
                let span = if kind == 1 { probe.calls } else { text.len() };
                let mut sink = Sink {
                    text: String::new(),
                    kind,
                    limit: step.arg(1) as usize % (span + 1),
                    lasts: match step.arg(2) % 4 {
                        0 => usize::MAX,
                        n => n as usize,
                    },
                    calls: 0,
                    failed: 0,
                };
                let r = match guard(|| write!(sink, "{}", tree.root)) {
                    Ok(r) => r,
                    Err(p) => return ctx.unexpected_panic(&["C07"], "print", &p),
                };
                ctx.nontrivial |= sink.failed > 0;
                if sink.failed > 0 {
                    ctx.count(if step.arg(2) % 4 == 0 {
                        "fault.sink_fails"
                    } else {
                        "fault.sink_fails_for_a_while"
                    });
                }
                ctx.count("oracle.failure_reported");
                if sink.failed > 0 && r.is_ok() {
                    return ctx.fail(
                        "failure-hidden",
                        format!(
                            "the sink failed after {} characters but printing reported success: {:?}",
                            sink.limit,
                            excerpt(&sink.text)
                        ),
                    );
                }
                if sink.failed == 0 && r.is_err() {
                    return ctx.fail("failure-invented", "printing failed without a failing sink".into());
                }
                ctx.count("oracle.prefix");
                if !text.starts_with(&sink.text) || (r.is_ok() && sink.text != text) {
                    return ctx.fail(
                        "not-a-prefix",
                        format!("{:?} was written, the text is {:?}", excerpt(&sink.text), excerpt(&text)),
                    );
                }
            }
            "file_sink" => {
                let text = full_text(ctx, &tree)?;
                let cap = match step.arg(2) % 3 {
                    0 => usize::MAX,
                    _ => step.arg(2) as usize % (text.len() + 1),
                };
                let mut f = File {
                    bytes: vec![],
                    cap,
                    rng: Rng::new(step.arg(0)),
                    mode: step.arg(1) % 3,
                };
                ctx.count(if cap < text.len() {
                    "fault.disk_full"
                } else {
                    "fault.short_or_interrupted_write"
                });
                let r = match guard(|| io::Write::write_fmt(&mut f, format_args!("{}", tree.root))) {
                    Ok(r) => r,
                    Err(p) => return ctx.unexpected_panic(&["C07"], "print", &p),
                };
                ctx.count("oracle.failure_reported");
                if r.is_ok() != (cap >= text.len()) {
                    return ctx.fail(
                        "failure-hidden",
                        format!("{cap} bytes of room for {} bytes: {r:?}", text.len()),
                    );
                }
                if !text.as_bytes().starts_with(&f.bytes)
                    || (r.is_ok() && f.bytes.len() != text.len())
                {
                    return ctx.fail(
                        "not-a-prefix",
                        format!("{:?} was written", excerpt(&String::from_utf8_lossy(&f.bytes))),
                    );
                }
                if r.is_ok() {
                    check_text(ctx, &String::from_utf8_lossy(&f.bytes), &doc)?;
                }
            }
            _ => {}
        }
        ctx.event(format_args!("document {:016x}", treekit::hash_row(&doc)));
    }
    let text = full_text(ctx, &tree)?;
    check_text(ctx, &text, &doc)
}
