//! C03 and C04: positions and selections that follow an edit log at their own
//! pace, in their own batches, saved and reloaded in between.
use crate::common::*;
use input_tree::{
    editing::{editable::Editable, BasicEdit},
    focus::{
        InputRowPosition, InputRowRange, MinimalInputGridRange, MinimalInputRowPosition,
        MinimalInputRowRange,
    },
    grid::{GridRectangle, GridVec, Index2D},
    input_tree::InputTree,
};
use kernel::{guard, Ctx, Plan, Rng, Step, Stop};
use std::cmp::Ordering;
use treekit::{
    gen,
    marks::{Gravity, Marked},
    real, MEdit, MNode, MRow, Path,
};

pub fn generate(prop: &str, thorough: bool, rng: &mut Rng) -> Plan {
    let mut plan = Plan::default();
    gen::swarm_shape(rng, &mut plan);
    let grid = if prop == "C03" {
        [0, 0, 0, 100, 500][rng.usize(5)]
    } else {
        0
    };
    let w_save = [0, 5, 15][rng.usize(3)];
    let w_near = [0, 30, 60][rng.usize(3)];
    let w_span = if prop == "C04" { 25 } else { 0 };
    let w_all = [0, 3][rng.usize(2)];
    let (low, high) = if thorough { (8, 90) } else { (5, 45) };
    let len = run_length(rng, &mut plan, 60, low, high);
    for _ in 0..len {
        let s = match rng.weighted(&[30, 14, 30, w_save, w_near, w_span, w_all, 6]) {
            0 => {
                let mut a = vec![];
                let n = 1 + rng.skewed(3);
                for _ in 0..n {
                    draw_edit(rng, grid, &mut a);
                }
                Step::new("edit", a)
            }
            1 => {
                let mut a = vec![];
                for _ in 0..1 + rng.below(4) {
                    a.push(rng.below(4));
                    a.push(rng.below(4000));
                    a.push(place_in(rng));
                }
                Step::new("track", a)
            }
            2 => Step::new("follow", vec![rng.below(16), 1 + rng.skewed(8), rng.below(2)]),
            3 => Step::new("reload", vec![rng.below(16)]),
            // an edit right where something is tracked
            4 => Step::new(
                "near",
                vec![
                    rng.below(16),
                    rng.below(8),
                    rng.below(3),
                    rng.below(5),
                    rng.skewed(4),
                    rng.below(1 << 20),
                ],
            ),
            5 => Step::new("span", vec![rng.below(4000), rng.below(4000), rng.below(4000)]),
            6 => Step::new("follow_all", vec![]),
            _ => Step::new("stop", vec![rng.below(16)]),
        };
        plan.steps.push(s);
    }
    plan
}

#[derive(Clone)]
enum Item {
    Pos(MinimalInputRowPosition),
    Range(MinimalInputRowRange),
}

struct Tracked {
    item: Item,
    /// no longer followed
    dead: bool,
    /// place in document order when tracking began
    first_order: usize,
}

/// Things tracked together, from the same point of the log.
struct Cohort {
    items: Vec<Tracked>,
    at: usize,
    marked: Marked,
}

struct S {
    log: Vec<BasicEdit>,
    models: Vec<MEdit>,
    snaps: Vec<MRow>,
    cohorts: Vec<Cohort>,
}

fn current(item: &Item) -> (Path, usize, usize) {
    match item {
        Item::Pos(p) => (
            real::path_from_real(&p.row_indices),
            p.offset.0,
            p.offset.0,
        ),
        Item::Range(r) => (
            real::path_from_real(&r.row_indices),
            r.start.0,
            r.end.0,
        ),
    }
}

fn order_of(doc: &MRow, path: &[(usize, usize)], off: usize) -> Option<usize> {
    treekit::places(doc)
        .iter()
        .position(|(p, o)| p == path && *o == off)
}

fn add(ctx: &mut Ctx, s: &mut S, e: MEdit) {
    let mut m = s.snaps.last().unwrap().clone();
    if treekit::apply(&mut m, &e).is_err() {
        return;
    }
    ctx.event(format_args!("log {}: {}", s.log.len(), e.brief()));
    ctx.count("op.edit");
    s.log.push(real::edit_to_real(&e));
    s.models.push(e);
    s.snaps.push(m);
}

pub fn run(plan: &Plan, ctx: &mut Ctx) -> Result<(), Stop> {
    let shape = gen::shape_from(plan);
    let doc = gen::initial_document(plan);
    let mut s = S {
        log: vec![],
        models: vec![],
        snaps: vec![doc],
        cohorts: vec![],
    };
    if plan.cfg("grid_range") == 1 {
        return grid_range(ctx, &s);
    }
    for step in &plan.steps {
        ctx.now_us += 500;
        let op: &str = &step.op;
        ctx.event(format_args!("step {op} {:?} log={}", step.a, s.log.len()));
        ctx.sched(op, step.arg(0));
        match op {
            "edit" => {
                for e in resolve_batch(s.snaps.last().unwrap(), step, 0, &shape) {
                    add(ctx, &mut s, e);
                }
            }
            "near" => {
                if let Some(e) = near(&s, step, &shape) {
                    ctx.count("probe.edit_at_tracked_place");
                    add(ctx, &mut s, e);
                }
            }
            "track" if s.cohorts.len() < 12 => {
                let at = s.log.len();
                let doc = &s.snaps[at];
                let places = treekit::places(doc);
                let mut c = Cohort {
                    items: vec![],
                    at,
                    marked: Marked::new(doc),
                };
                for a in step.a.chunks(3) {
                    let g = |i: usize| a.get(i).copied().unwrap_or(0);
                    let k = (g(1) % places.len() as u64) as usize;
                    let (path, off) = &places[k];
                    let len = treekit::row_at(doc, path).unwrap().len();
                    let (end, item) = match g(0) % 4 {
                        0 | 1 => (*off, Item::Pos(real::position(path, *off))),
                        kind => {
                            let end = if kind == 3 {
                                *off
                            } else {
                                (g(2) % (len as u64 + 1)) as usize
                            };
                            (end, Item::Range(real::range(path, *off, end)))
                        }
                    };
                    let id = c.items.len() as u32;
                    c.marked.place(id * 2, path, *off);
                    c.marked.place(id * 2 + 1, path, end);
                    if let Item::Range(_) = item {
                        ctx.count(match off.cmp(&end) {
                            Ordering::Less => "probe.forward_selection",
                            Ordering::Equal => "probe.empty_selection",
                            Ordering::Greater => "probe.backward_selection",
                        });
                    }
                    c.items.push(Tracked {
                        item,
                        dead: false,
                        first_order: k,
                    });
                }
                s.cohorts.push(c);
            }
            "follow" if !s.cohorts.is_empty() => {
                let i = (step.arg(0) % s.cohorts.len() as u64) as usize;
                follow(ctx, &mut s, i, step.arg(1) as usize, step.arg(2) == 0)?;
            }
            "follow_all" => {
                for i in 0..s.cohorts.len() {
                    follow(ctx, &mut s, i, usize::MAX, true)?;
                }
            }
            "reload" if !s.cohorts.is_empty() => {
                ctx.count("fault.tracker_saved_and_reloaded");
                let i = (step.arg(0) % s.cohorts.len() as u64) as usize;
                reload(ctx, &mut s.cohorts[i])?;
            }
            "stop" if !s.cohorts.is_empty() => {
                let i = (step.arg(0) % s.cohorts.len() as u64) as usize;
                s.cohorts.remove(i);
            }
            "span" => span(ctx, &s, step)?,
            _ => {}
        }
    }
    for i in 0..s.cohorts.len() {
        follow(ctx, &mut s, i, usize::MAX, false)?;
    }
    Ok(())
}

fn near(s: &S, step: &Step, shape: &gen::Shape) -> Option<MEdit> {
    let doc = s.snaps.last().unwrap();
    let c = if s.cohorts.is_empty() {
        return None;
    } else {
        &s.cohorts[(step.arg(0) % s.cohorts.len() as u64) as usize]
    };
    if c.items.is_empty() {
        return None;
    }
    let (mut path, a, b) = current(&c.items[(step.arg(1) % c.items.len() as u64) as usize].item);
    let mut off = if step.arg(2) == 0 { b } else { a };
    if step.arg(2) == 2 {
        // at the container around it
        if let Some((i, _)) = path.pop() {
            off = i;
        }
    }
    let row = treekit::row_at(doc, &path)?;
    let n = step.arg(4) as usize % 5;
    // just before, at, just after
    let off = (off + (step.arg(3) % 3) as usize)
        .saturating_sub(1)
        .min(row.len());
    if step.arg(3) >= 3 {
        let n = n.max(1).min(row.len() - off);
        return Some(MEdit::Row {
            insert: false,
            off,
            values: row[off..off + n].to_vec(),
            path,
        });
    }
    if treekit::size(doc) > MAX_SIZE {
        return None;
    }
    Some(MEdit::Row {
        insert: true,
        off,
        values: content(step.arg(5), shape, n as u64, path.len()),
        path,
    })
}

fn reload(ctx: &mut Ctx, c: &mut Cohort) -> Result<(), Stop> {
    for t in &mut c.items {
        let r = guard(|| -> Result<Item, String> {
            Ok(match &t.item {
                Item::Pos(p) => Item::Pos(
                    serde_json::from_str(&serde_json::to_string(p).map_err(|e| e.to_string())?)
                        .map_err(|e| e.to_string())?,
                ),
                Item::Range(p) => Item::Range(
                    serde_json::from_str(&serde_json::to_string(p).map_err(|e| e.to_string())?)
                        .map_err(|e| e.to_string())?,
                ),
            })
        });
        match r {
            Ok(Ok(i)) => t.item = i,
            Ok(Err(e)) => {
                return ctx.fail_for(&["C03"], "reload", format!("reloading a position: {e}"))
            }
            Err(p) => return ctx.unexpected_panic(&["C03"], "reload", &p),
        }
    }
    Ok(())
}

/// Carries a cohort over the next edits of the log.
fn follow(ctx: &mut Ctx, s: &mut S, i: usize, n: usize, batched: bool) -> Result<(), Stop> {
    let S {
        log,
        models,
        snaps,
        cohorts,
    } = s;
    let c = &mut cohorts[i];
    let to = log.len().min(c.at.saturating_add(n));
    if to == c.at {
        return Ok(());
    }
    let c03 = ctx.is("C03");
    let mut from = c.at;
    while from < to {
        // one batch, or edit by edit
        let next = if batched { to } else { from + 1 };
        // the oracle's markers
        let mut touched = vec![false; c.items.len()];
        for e in &models[from..next] {
            if e.is_grid() {
                for (id, t) in touched.iter_mut().enumerate() {
                    if let Some((path, _)) = c.marked.find(id as u32 * 2) {
                        *t |= path.starts_with(e.path());
                    }
                }
            }
            let dirs: Vec<Ordering> = c
                .items
                .iter()
                .enumerate()
                .map(|(id, t)| match &t.item {
                    Item::Pos(_) => Ordering::Less,
                    Item::Range(_) => {
                        let (a, b) = (
                            c.marked.find(id as u32 * 2),
                            c.marked.find(id as u32 * 2 + 1),
                        );
                        match (a, b) {
                            (Some(a), Some(b)) => a.1.cmp(&b.1),
                            _ => Ordering::Less,
                        }
                    }
                })
                .collect();
            let kinds: Vec<bool> = c
                .items
                .iter()
                .map(|t| matches!(t.item, Item::Pos(_)))
                .collect();
            c.marked.apply(e, |m| {
                let id = (m / 2) as usize;
                if kinds[id] {
                    return Gravity::Left;
                }
                let is_end = m % 2 == 1;
                // the left end keeps to its left neighbour, the right end to its right one
                match (dirs[id], is_end) {
                    (Ordering::Greater, true) | (Ordering::Less | Ordering::Equal, false) => {
                        Gravity::Left
                    }
                    _ => Gravity::Right,
                }
            });
        }
        let edits = &log[from..next];
        for (id, t) in c.items.iter_mut().enumerate() {
            if t.dead {
                continue;
            }
            let before = current(&t.item);
            let res = guard(|| match &mut t.item {
                Item::Pos(p) => p.apply_edits(edits),
                Item::Range(r) => r.apply_edits(edits),
            });
            ctx.count("op.carry");
            if let Err(p) = res {
                // Not implemented: an edit of a table that lies in the row of
                // the position or in a row around it.
                if touched[id] && p.message.contains("not yet implemented") {
                    if c03 {
                        ctx.fail(
                            "grid-edit-not-implemented",
                            format!("carrying a position through a table edit: {}", p.message),
                        )?;
                    }
                    ctx.count("probe.tracker_lost_to_table_edit");
                    t.dead = true;
                    continue;
                }
                return ctx.unexpected_panic(&["C03", "C04"], "carry", &p);
            }
            let now = current(&t.item);
            if now != before {
                ctx.count("probe.tracker_moved");
                ctx.nontrivial = true;
            }
            if now.0.len() < before.0.len() {
                ctx.count("probe.container_of_tracker_deleted");
            }
            let (m0, m1) = (id as u32 * 2, id as u32 * 2 + 1);
            if c.marked.undefined.contains(&m0) || c.marked.undefined.contains(&m1) {
                // it was in a deleted table cell: nothing is promised
                t.dead = true;
                continue;
            }
            if c03 {
                ctx.count("oracle.attached");
                let (a, b) = (c.marked.find(m0), c.marked.find(m1));
                let want = match (a, b) {
                    (Some(a), Some(b)) if a.0 == b.0 => (a.0, a.1, b.1),
                    other => {
                        return Err(Stop::Foreign(format!("oracle lost a marker: {other:?}")))
                    }
                };
                if now != want {
                    let what = if let Item::Pos(_) = t.item {
                        "position"
                    } else {
                        "selection"
                    };
                    return ctx.fail(
                        "not-attached",
                        format!(
                            "{what} {before:?} carried through [{}] is at {now:?}, expected {want:?}",
                            models[from..next]
                                .iter()
                                .map(|e| e.brief())
                                .collect::<Vec<_>>()
                                .join("; ")
                        ),
                    );
                }
            }
            ctx.state(kernel::rng::mix(&[
                treekit::hash_row(&snaps[next]),
                now.1 as u64,
                now.2 as u64,
                now.0.len() as u64,
            ]));
            ctx.event(format_args!("tracker {i}.{id} at {now:?}"));
        }
        from = next;
    }
    c.at = to;
    if ctx.is("C04") {
        valid_and_ordered(ctx, &s.cohorts[i], &s.snaps[to])?;
    }
    Ok(())
}

fn valid_and_ordered(ctx: &mut Ctx, c: &Cohort, doc: &MRow) -> Result<(), Stop> {
    let tree = InputTree::new(real::row_to_real(doc));
    let mut orders = vec![];
    for t in c.items.iter().filter(|t| !t.dead) {
        let now = current(&t.item);
        ctx.count("oracle.addresses_existing_place");
        let ok = guard(|| match &t.item {
            Item::Pos(p) => {
                let f = InputRowPosition::from_minimal(tree.root_focus(), p);
                f.to_minimal() == *p
            }
            Item::Range(r) => {
                let f = InputRowRange::from_minimal(tree.root_focus(), r);
                f.to_minimal() == *r && f.values().len() == f.len()
            }
        });
        let exists = order_of(doc, &now.0, now.1).is_some() && order_of(doc, &now.0, now.2).is_some();
        match ok {
            Ok(true) if exists => {}
            Ok(true) => {
                return ctx.fail(
                    "no-such-place",
                    format!("{now:?} was accepted but is not a place of {}", treekit::show(doc)),
                )
            }
            Ok(false) => {
                return ctx.fail("resolves-elsewhere", format!("{now:?} resolves to another place"))
            }
            Err(p) => {
                return ctx.fail(
                    "no-such-place",
                    format!("{now:?} does not exist in the document: {}", p.message),
                )
            }
        }
        if let Item::Pos(p) = &t.item {
            orders.push((t.first_order, order_of(doc, &now.0, now.1).unwrap(), p));
        }
    }
    for (i, a) in orders.iter().enumerate() {
        for b in &orders[i + 1..] {
            ctx.count("oracle.order_kept");
            let before = a.0.cmp(&b.0);
            let after = a.1.cmp(&b.1);
            let kept = after == Ordering::Equal || before == Ordering::Equal || before == after;
            if !kept {
                return ctx.fail(
                    "order-swapped",
                    format!("two positions were {before:?}, now they are {after:?}: {:?} {:?}", a.2, b.2),
                );
            }
            compare(ctx, &tree, a.2, b.2, after)?;
        }
    }
    Ok(())
}

fn compare(
    ctx: &mut Ctx,
    tree: &InputTree,
    a: &MinimalInputRowPosition,
    b: &MinimalInputRowPosition,
    want: Ordering,
) -> Result<(), Stop> {
    let got = guard(|| {
        let a = InputRowPosition::from_minimal(tree.root_focus(), a);
        let b = InputRowPosition::from_minimal(tree.root_focus(), b);
        (a.cmp(&b), b.cmp(&a), a == b, a <= b)
    });
    ctx.count("oracle.comparison");
    match got {
        Ok(g) if g == (want, want.reverse(), want == Ordering::Equal, want != Ordering::Greater) => {
            Ok(())
        }
        Ok(g) => ctx.fail(
            "comparison",
            format!("comparing {a:?} with {b:?} says {g:?}, in document order it is {want:?}"),
        ),
        Err(p) => ctx.unexpected_panic(&["C04"], "compare", &p),
    }
}

/// The selection spanned by two places of the current document.
fn span(ctx: &mut Ctx, s: &S, step: &Step) -> Result<(), Stop> {
    let doc = s.snaps.last().unwrap();
    let places = treekit::places(doc);
    let pick = |k: u64| (k % places.len() as u64) as usize;
    let (i, j) = (pick(step.arg(0)), pick(step.arg(1)));
    let (a, b) = (&places[i], &places[j]);
    let tree = InputTree::new(real::row_to_real(doc));
    let pa = real::position(&a.0, a.1);
    let pb = real::position(&b.0, b.1);
    compare(ctx, &tree, &pa, &pb, i.cmp(&j))?;
    // expected: the longest common path; each end as tight as possible
    let shared: Path = a
        .0
        .iter()
        .zip(&b.0)
        .take_while(|(x, y)| x == y)
        .map(|(x, _)| *x)
        .collect();
    let left_of = |p: &(Path, usize)| p.0.get(shared.len()).map(|x| x.0).unwrap_or(p.1);
    let right_of = |p: &(Path, usize)| p.0.get(shared.len()).map(|x| x.0 + 1).unwrap_or(p.1);
    let want = if i <= j {
        (left_of(a), right_of(b))
    } else {
        (right_of(a), left_of(b))
    };
    ctx.count("op.span");
    ctx.nontrivial |= i != j;
    let probe = pick(step.arg(2));
    let got = guard(|| {
        let pa = InputRowPosition::from_minimal(tree.root_focus(), &pa);
        let pb = InputRowPosition::from_minimal(tree.root_focus(), &pb);
        let r = tree.range_from_positions(&pa, &pb);
        let inside: Vec<bool> = [i, j, probe]
            .iter()
            .chain([&0, &(places.len() - 1)])
            .map(|k| {
                let (p, o) = &places[*k];
                r.contains(&InputRowPosition::from_minimal(
                    tree.root_focus(),
                    &real::position(p, *o),
                ))
            })
            .collect();
        (
            (
                real::path_from_real(r.row_indices()),
                r.start.0,
                r.end.0,
            ),
            r.is_forwards(),
            inside,
        )
    });
    let (range, forwards, inside) = match got {
        Ok(g) => g,
        Err(p) => return ctx.unexpected_panic(&["C04"], "span", &p),
    };
    ctx.event(format_args!("span {a:?} {b:?} -> {range:?}"));
    ctx.count("oracle.spanned_selection");
    if range != (shared.clone(), want.0, want.1) {
        return ctx.fail(
            "span",
            format!("the selection from {a:?} to {b:?} is {range:?}, expected {shared:?} {want:?}"),
        );
    }
    if forwards != (i <= j) {
        return ctx.fail("span-direction", format!("selection from {a:?} to {b:?} runs forwards: {forwards}"));
    }
    let l = order_of(doc, &shared, want.0.min(want.1)).unwrap();
    let r = order_of(doc, &shared, want.0.max(want.1)).unwrap();
    for (k, got) in [i, j, probe, 0, places.len() - 1].into_iter().zip(inside) {
        ctx.count("oracle.contains");
        if got != (l <= k && k <= r) {
            return ctx.fail(
                "contains",
                format!("the selection {range:?} contains {:?}: {got}", places[k]),
            );
        }
    }
    Ok(())
}

/// A rectangle of table cells, carried through an edit.
fn grid_range(ctx: &mut Ctx, s: &S) -> Result<(), Stop> {
    let doc = s.snaps.last().unwrap();
    let Some((path, idx, w, h)) = treekit::tables(doc).first().cloned() else {
        return Ok(());
    };
    let MNode::Box(_, _, cells) = &treekit::row_at(doc, &path).unwrap()[idx] else {
        return Ok(());
    };
    let grid = GridVec::from_one_dimensional(vec![(); cells.len()], w);
    let r = guard(|| {
        let mut range = MinimalInputGridRange {
            row_indices: real::path_to_real(&path),
            index: idx,
            range: GridRectangle::from_indices_inclusive(
                Index2D::new(0, 0, w),
                Index2D::new(w - 1, h - 1, w),
                &grid,
            ),
        };
        let rect = range.range;
        range.apply_edit(&real::edit_to_real(&MEdit::Row {
            insert: true,
            path: path.clone(),
            off: 0,
            values: vec![MNode::Sym("a".into())],
        }));
        (range.index, range.range == rect)
    });
    match r {
        Ok((i, same)) if i == idx + 1 && same => Ok(()),
        Ok(other) => ctx.fail("not-attached", format!("the table selection moved to {other:?}")),
        Err(p) if p.message.contains("not yet implemented") => ctx.fail(
            "grid-range-not-implemented",
            "carrying a selection of table cells through an edit is not implemented".into(),
        ),
        Err(p) => ctx.unexpected_panic(&["C03"], "carry", &p),
    }
}

pub fn fixed(prop: &str) -> Vec<(String, Plan)> {
    let (mut plan, edits) = huge();
    for (i, e) in edits.into_iter().enumerate() {
        let mut a = vec![];
        for k in 0..8 {
            a.extend([k % 4, 65_500 + 131 * k + 17 * i as u64, k % 5]);
        }
        plan.steps.push(Step::new("track", a));
        plan.steps.push(Step::new("edit", e));
        if prop == "C04" && i > 1 {
            let i = i as u64;
            plan.steps
                .push(Step::new("span", vec![65_700 + 40 * i, 66_000 + 3 * i, 66_300]));
        }
    }
    plan.steps.push(Step::new("follow_all", vec![]));
    let huge = ("a row of more than 65536 elements".to_string(), plan);
    if prop != "C03" {
        return vec![huge];
    }
    let mut base = Plan::default();
    for (k, x) in [
        ("alphabet", 0),
        ("boxes", 1000),
        ("tables", 1000),
        ("max_depth", 1),
        ("max_cells", 9),
        ("doc_n", 2),
        ("doc_seed", 77),
    ] {
        base.cfg.insert(k.into(), x);
    }
    let mut a = base.clone();
    a.cfg.insert("grid_range".into(), 1);
    let mut b = base.clone();
    b.steps.push(Step::new("track", vec![0, 0, 0]));
    b.steps.push(Step::new("edit", vec![2, 0, 0, 0, 5]));
    b.steps.push(Step::new("follow_all", vec![]));
    vec![
        ("table selection".into(), a),
        ("table edit".into(), b),
        huge,
    ]
}
