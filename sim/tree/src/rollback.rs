//! C01: histories of edits, walked back and forth, with interruptions.
use crate::common::*;
use input_tree::{
    editing::{editable::Editable, invertible::Invertible, BasicEdit},
    focus::{InputRowPosition, InputRowRange},
    input_tree::InputTree,
    row::{InputRow, Offset},
};
use kernel::{guard, Ctx, Plan, Rng, Step, Stop};
use treekit::{gen, real, MRow};

const P: &[&str] = &["C01"];

pub fn generate(thorough: bool, rng: &mut Rng) -> Plan {
    let mut plan = Plan::default();
    gen::swarm_shape(rng, &mut plan);
    let grid = [0, 150, 400, 800][rng.usize(4)];
    let crash = [0, 200, 500][rng.usize(3)];
    let (low, high) = if thorough { (5, 60) } else { (3, 26) };
    let len = run_length(rng, &mut plan, 60, low, high);
    for _ in 0..len {
        let s = match rng.weighted(&[40, 18, 12, 8, 10, 4]) {
            0 => {
                // [interruption, progress, edits...]
                let mode = if rng.permille(crash) { 1 + rng.below(2) } else { 0 };
                let mut a = vec![mode, rng.below(16)];
                let n = 1 + rng.skewed(6);
                for _ in 0..n {
                    draw_edit(rng, grid, &mut a);
                }
                Step::new("batch", a)
            }
            1 => Step::new("undo", vec![1 + rng.skewed(6)]),
            2 => Step::new("redo", vec![1 + rng.skewed(6)]),
            3 => Step::new("jump", vec![rng.below(40)]),
            4 => Step::new(
                "replace",
                vec![
                    which(rng),
                    place_in(rng),
                    place_in(rng),
                    rng.skewed(5),
                    rng.below(1 << 20),
                    rng.below(3),
                ],
            ),
            _ => Step::new("restart", vec![]),
        };
        plan.steps.push(s);
    }
    plan
}

struct Entry {
    edits: Vec<BasicEdit>,
    before: MRow,
    after: MRow,
}

struct S {
    tree: InputTree,
    history: Vec<Entry>,
    cursor: usize,
}

fn same(ctx: &mut Ctx, sig: &str, what: String, got: &InputRow, want: &MRow) -> Result<(), Stop> {
    ctx.count("oracle.exact_document");
    match real::diff(got, want) {
        None => Ok(()),
        Some(d) => ctx.fail(sig, format!("{what}: {d}")),
    }
}

fn apply(ctx: &mut Ctx, tree: &mut InputTree, edits: &[BasicEdit], what: &str) -> Result<(), Stop> {
    ctx.count_n("op.edit", edits.len() as u64);
    match guard(|| tree.apply_edits(edits)) {
        Ok(()) => Ok(()),
        Err(p) => ctx.unexpected_panic(P, what, &p),
    }
}

fn inverse(e: &BasicEdit) -> BasicEdit {
    e.inverse()
}

fn roll_back(ctx: &mut Ctx, tree: &mut InputTree, edits: &[BasicEdit], what: &str) -> Result<(), Stop> {
    for e in edits.iter().rev() {
        let inv = inverse(e);
        ctx.count("oracle.inverse_of_inverse");
        if inverse(&inv) != *e {
            ctx.fail("inverse-of-inverse", format!("the inverse of the inverse of {e:?} differs"))?;
        }
        apply(ctx, tree, &[inv], what)?;
    }
    Ok(())
}

/// Saves the document, kills the process, loads the document.
fn restart(ctx: &mut Ctx, tree: &mut InputTree) -> Result<(), Stop> {
    let saved = match guard(|| serde_json::to_string(&tree.root)) {
        Ok(Ok(s)) => s,
        Ok(Err(e)) => return ctx.fail_for(&[], "save", e.to_string()),
        Err(p) => return ctx.unexpected_panic(&[], "save", &p),
    };
    match guard(|| serde_json::from_str::<InputRow>(&saved)) {
        Ok(Ok(root)) => *tree = InputTree::new(root),
        Ok(Err(e)) => return ctx.fail_for(&[], "load", e.to_string()),
        Err(p) => return ctx.unexpected_panic(&[], "load", &p),
    }
    Ok(())
}

fn model(ctx: &mut Ctx, tree: &InputTree) -> Result<MRow, Stop> {
    match real::row_from_real(&tree.root) {
        Ok(m) => Ok(m),
        Err(e) => {
            ctx.fail("ill-formed", format!("the document is not well-formed: {e}"))?;
            Err(Stop::Foreign("ill-formed".into()))
        }
    }
}

pub fn run(plan: &Plan, ctx: &mut Ctx) -> Result<(), Stop> {
    let shape = gen::shape_from(plan);
    let doc = gen::initial_document(plan);
    let mut s = S {
        tree: InputTree::new(real::row_to_real(&doc)),
        history: vec![],
        cursor: 0,
    };
    let initial = doc;
    for step in &plan.steps {
        ctx.now_us += 1000;
        let op: &str = &step.op;
        ctx.event(format_args!("step {op} {:?} cursor={}", step.a, s.cursor));
        ctx.sched(op, step.arg(0));
        match op {
            "batch" => {
                let m = model(ctx, &s.tree)?;
                let edits: Vec<BasicEdit> = resolve_batch(&m, step, 2, &shape)
                    .iter()
                    .map(real::edit_to_real)
                    .collect();
                if edits.is_empty() {
                    continue;
                }
                do_batch(ctx, &mut s, edits, step.arg(0), step.arg(1))?;
            }
            "replace" => {
                let m = model(ctx, &s.tree)?;
                let rows = treekit::rows(&m);
                let path = rows[(step.arg(0) % rows.len() as u64) as usize].clone();
                let len = treekit::row_at(&m, &path).unwrap().len() as u64;
                let (a, b) = (step.arg(1) % (len + 1), step.arg(2) % (len + 1));
                let values = real::nodes_to_real(&content(
                    step.arg(4),
                    &shape,
                    step.arg(3) % 8,
                    path.len(),
                ));
                let what = step.arg(5) % 3;
                let tree = &s.tree;
                let built = guard(|| {
                    let row = tree.root_focus().walk_down_indices(&real::path_to_real(&path));
                    let range =
                        InputRowRange::new(row.clone(), Offset(a as usize), Offset(b as usize));
                    match what {
                        0 => BasicEdit::replace_range(&range, values).0,
                        1 => BasicEdit::remove_range(&range).0,
                        _ => {
                            BasicEdit::insert_at_position(
                                &InputRowPosition::new(row, Offset(a as usize)),
                                values,
                            )
                            .0
                        }
                    }
                });
                let edits = match built {
                    Ok(e) => e,
                    Err(p) => return ctx.unexpected_panic(P, "build", &p),
                };
                ctx.count("op.built_edit");
                do_batch(ctx, &mut s, edits, 0, 0)?;
            }
            "undo" => {
                for _ in 0..step.arg(0).max(1) {
                    undo(ctx, &mut s)?;
                }
            }
            "redo" => {
                for _ in 0..step.arg(0).max(1) {
                    redo(ctx, &mut s)?;
                }
            }
            "jump" => {
                let to = (step.arg(0) % (s.history.len() as u64 + 1)) as usize;
                while s.cursor > to {
                    undo(ctx, &mut s)?;
                }
                while s.cursor < to {
                    redo(ctx, &mut s)?;
                }
            }
            "restart" => {
                ctx.count("fault.crash_restart");
                restart(ctx, &mut s.tree)?;
            }
            _ => {}
        }
        let m = model(ctx, &s.tree)?;
        ctx.state(treekit::hash_row(&m));
        ctx.event(format_args!("document {:016x}", treekit::hash_row(&m)));
    }
    // Everything back to the initial document, everything forth again.
    let last = s.cursor;
    while s.cursor > 0 {
        undo(ctx, &mut s)?;
    }
    same(ctx, "initial", "after undoing everything".into(), &s.tree.root, &initial)?;
    while s.cursor < last {
        redo(ctx, &mut s)?;
    }
    Ok(())
}

fn do_batch(
    ctx: &mut Ctx,
    s: &mut S,
    edits: Vec<BasicEdit>,
    mode: u64,
    progress: u64,
) -> Result<(), Stop> {
    let before = model(ctx, &s.tree)?;
    match mode {
        0 => apply(ctx, &mut s.tree, &edits, "apply")?,
        _ => {
            // The process dies after `k` edits; what survives is the document
            // as saved at that point and the batch itself.
            let k = (progress % (edits.len() as u64 + 1)) as usize;
            apply(ctx, &mut s.tree, &edits[..k], "apply")?;
            ctx.count("fault.crash_inside_batch");
            restart(ctx, &mut s.tree)?;
            if mode == 1 {
                roll_back(ctx, &mut s.tree, &edits[..k], "rollback")?;
                ctx.count("op.rollback_of_interrupted_batch");
                ctx.nontrivial |= k > 0;
                return same(
                    ctx,
                    "interrupted-rollback",
                    format!("after rolling back {k} of {} edits", edits.len()),
                    &s.tree.root,
                    &before,
                );
            }
            apply(ctx, &mut s.tree, &edits[k..], "apply")?;
            ctx.count("op.resume_of_interrupted_batch");
        }
    }
    let after = model(ctx, &s.tree)?;
    s.history.truncate(s.cursor);
    s.history.push(Entry {
        edits,
        before,
        after,
    });
    s.cursor += 1;
    Ok(())
}

fn undo(ctx: &mut Ctx, s: &mut S) -> Result<(), Stop> {
    if s.cursor == 0 {
        return Ok(());
    }
    s.cursor -= 1;
    ctx.count("op.undo");
    let e = &s.history[s.cursor];
    roll_back(ctx, &mut s.tree, &e.edits, "rollback")?;
    ctx.nontrivial |= e.before != e.after;
    same(
        ctx,
        "undo",
        format!("after undoing entry {} ({} edits)", s.cursor, e.edits.len()),
        &s.tree.root,
        &e.before,
    )
}

fn redo(ctx: &mut Ctx, s: &mut S) -> Result<(), Stop> {
    if s.cursor == s.history.len() {
        return Ok(());
    }
    ctx.count("op.redo");
    let e = &s.history[s.cursor];
    s.cursor += 1;
    apply(ctx, &mut s.tree, &e.edits, "reapply")?;
    same(
        ctx,
        "redo",
        format!("after redoing entry {}", s.cursor - 1),
        &s.tree.root,
        &e.after,
    )
}

pub fn fixed() -> Vec<(String, Plan)> {
    // A table whose rows and columns are removed and brought back.
    let mut v = vec![];
    for kind in [2u64, 3, 4, 5] {
        for at in 0..3u64 {
            let mut plan = Plan::default();
            for (k, x) in [
                ("alphabet", 0),
                ("boxes", 1000),
                ("tables", 1000),
                ("max_depth", 1),
                ("max_cells", 9),
                ("doc_n", 2),
                ("doc_seed", 77 + at),
            ] {
                plan.cfg.insert(k.into(), x);
            }
            plan.steps
                .push(Step::new("batch", vec![1, 1, kind, 0, at, 0, 5]));
            plan.steps
                .push(Step::new("batch", vec![0, 0, kind, 1, at, 1, 6]));
            plan.steps.push(Step::new("undo", vec![2]));
            plan.steps.push(Step::new("redo", vec![2]));
            v.push((format!("table edit kind {kind} at {at}"), plan));
        }
    }
    let (mut plan, edits) = huge();
    for e in edits {
        let mut a = vec![0, 0];
        a.extend(e);
        plan.steps.push(Step::new("batch", a));
    }
    plan.steps.push(Step::new("undo", vec![12]));
    plan.steps.push(Step::new("redo", vec![12]));
    v.push(("a row of more than 65536 elements".into(), plan));
    for (name, mut plan) in gen::vast() {
        let edits = vast_edits();
        let n = edits.len() as u64;
        for e in edits {
            let mut a = vec![0, 0];
            a.extend(e);
            plan.steps.push(Step::new("batch", a));
        }
        plan.steps.push(Step::new("undo", vec![n]));
        plan.steps.push(Step::new("redo", vec![n]));
        v.push((name.into(), plan));
    }
    v
}
