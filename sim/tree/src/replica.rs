//! C02: an author, replicas behind a faulty network, crashes and restarts.
//! C05: the same with edits that do not fit.
use crate::common::*;
use input_tree::{
    editing::{editable::Editable, BasicEdit, EditType, GridEdit},
    focus::{InputRowPosition, InputRowRange, MinimalInputRowPosition, MinimalInputRowRange},
    grid::{GridDirection, GridVec},
    input_tree::InputTree,
    row::{ElementIndices, InputRow, Offset},
};
use kernel::{guard, Ctx, Panicked, Plan, Rng, Step, Stop};
use std::collections::BTreeMap;
use treekit::{gen, gen::Shape, real, MEdit, MNode, MRow};

pub fn generate(prop: &str, thorough: bool, rng: &mut Rng) -> Plan {
    let mut plan = Plan::default();
    gen::swarm_shape(rng, &mut plan);
    let c05 = prop == "C05";
    let grid = if c05 {
        [100, 400, 800][rng.usize(3)]
    } else {
        [0, 150, 400, 800][rng.usize(4)]
    };
    plan.cfg.insert("replicas".into(), 1 + rng.below(3));
    // swarm: which faults this run has
    let w_drop = [0, 4, 12][rng.usize(3)];
    let w_dup = [0, 4, 12][rng.usize(3)];
    let w_reorder = [0, 6, 15][rng.usize(3)];
    let w_part = [0, 0, 4][rng.usize(3)];
    let w_crash = [0, 4, 10][rng.usize(3)];
    let w_bad = if c05 { [15, 40][rng.usize(2)] } else { 0 };
    let (low, high) = if thorough { (8, 90) } else { (5, 40) };
    let len = run_length(rng, &mut plan, 60, low, high);
    for _ in 0..len {
        let s = match rng.weighted(&[
            30, 14, 30, w_drop, w_dup, w_reorder, w_part, w_part, w_crash, w_bad, 6, 6,
        ]) {
            0 => {
                let mut a = vec![];
                let n = 1 + rng.skewed(4);
                for _ in 0..n {
                    draw_edit(rng, grid, &mut a);
                }
                Step::new("edit", a)
            }
            1 => Step::new(
                "build",
                vec![
                    rng.below(3),
                    which(rng),
                    place_in(rng),
                    place_in(rng),
                    rng.skewed(5),
                    rng.below(1 << 20),
                ],
            ),
            2 => Step::new("deliver", vec![rng.below(64)]),
            3 => Step::new("drop", vec![rng.below(64)]),
            4 => Step::new("dup", vec![rng.below(64)]),
            5 => Step::new("reorder", vec![rng.below(64), rng.below(64)]),
            6 => Step::new("partition", vec![rng.below(4)]),
            7 => Step::new("heal", vec![rng.below(4)]),
            8 => Step::new("crash", vec![rng.below(4), rng.below(3)]),
            9 => {
                let mut a = vec![
                    rng.below(4),
                    rng.below(12),
                    rng.below(64),
                    rng.below(64),
                    rng.below(64),
                ];
                draw_edit(rng, grid.max(300), &mut a);
                Step::new("bad", a)
            }
            10 => Step::new("save", vec![rng.below(4)]),
            _ => Step::new("sync", vec![]),
        };
        plan.steps.push(s);
    }
    plan
}

struct Replica {
    tree: InputTree,
    applied: usize,
    buffer: BTreeMap<usize, BasicEdit>,
    saved: (String, usize),
    cut: bool,
    refused: u64,
}

struct Msg {
    to: usize,
    first: usize,
    last: usize,
}

struct S {
    author: InputTree,
    author_refused: u64,
    log: Vec<BasicEdit>,
    snaps: Vec<MRow>,
    replicas: Vec<Replica>,
    net: Vec<Msg>,
}

fn check_doc(
    ctx: &mut Ctx,
    refused: u64,
    sig: &str,
    what: String,
    got: &InputRow,
    want: &MRow,
) -> Result<(), Stop> {
    ctx.count("oracle.document_equals_model");
    match real::diff(got, want) {
        None => Ok(()),
        Some(d) => {
            let props: &[&str] = if refused > 0 { &["C02", "C05"] } else { &["C02"] };
            ctx.fail_for(props, sig, format!("{what}: {d}"))
        }
    }
}

fn unexpected(ctx: &mut Ctx, refused: u64, what: &str, p: &Panicked) -> Result<(), Stop> {
    let props: &[&str] = if refused > 0 { &["C02", "C05"] } else { &["C02"] };
    ctx.unexpected_panic(props, what, p)
}

fn publish(s: &mut S, n: usize) {
    let last = s.log.len();
    for r in 0..s.replicas.len() {
        s.net.push(Msg {
            to: r,
            first: last - n,
            last,
        });
    }
}

/// The author applies edits that fit, one model step per edit.
fn author_applies(ctx: &mut Ctx, s: &mut S, edits: &[MEdit], reals: &[BasicEdit]) -> Result<(), Stop> {
    let mut m = s.snaps.last().unwrap().clone();
    let mut snaps = vec![];
    for e in edits {
        if let Err(why) = treekit::apply(&mut m, e) {
            return ctx.fail_for(
                &["C02"],
                "built-edit-does-not-fit",
                format!("{} does not fit the document it was built for: {why}", e.brief()),
            );
        }
        snaps.push(m.clone());
    }
    ctx.count_n("op.edit", edits.len() as u64);
    let t = &mut s.author;
    if let Err(p) = guard(|| t.apply_edits(reals)) {
        return unexpected(ctx, s.author_refused, "apply", &p);
    }
    let what = edits.iter().map(|e| e.brief()).collect::<Vec<_>>().join("; ");
    s.log.extend(reals.iter().cloned());
    s.snaps.extend(snaps);
    check_doc(
        ctx,
        s.author_refused,
        "described-change",
        format!("after {what}"),
        &s.author.root,
        s.snaps.last().unwrap(),
    )?;
    publish(s, edits.len());
    ctx.state(treekit::hash_row(s.snaps.last().unwrap()));
    Ok(())
}

fn receive(ctx: &mut Ctx, s: &mut S, m: Msg) -> Result<(), Stop> {
    let S {
        log,
        snaps,
        replicas,
        ..
    } = s;
    let r = &mut replicas[m.to];
    if r.cut {
        ctx.count("fault.message_lost_in_partition");
        return Ok(());
    }
    ctx.count("op.deliver");
    for i in m.first..m.last.min(log.len()) {
        if i >= r.applied {
            r.buffer.insert(i, log[i].clone());
        } else {
            ctx.count("probe.duplicate_entry_ignored");
        }
    }
    if !r.buffer.is_empty() && !r.buffer.contains_key(&r.applied) {
        ctx.count("probe.entry_waits_for_earlier_one");
    }
    let mut batch = vec![];
    while let Some(e) = r.buffer.remove(&(r.applied + batch.len())) {
        batch.push(e);
    }
    if batch.is_empty() {
        return Ok(());
    }
    if batch.len() > 1 {
        ctx.count("probe.batch_of_several");
    }
    let t = &mut r.tree;
    if let Err(p) = guard(|| t.apply_edits(&batch)) {
        return unexpected(ctx, r.refused, "apply", &p);
    }
    r.applied += batch.len();
    ctx.nontrivial |= snaps[r.applied] != snaps[r.applied - batch.len()];
    check_doc(
        ctx,
        r.refused,
        "replica-differs",
        format!("replica {} after {} entries", m.to, r.applied),
        &r.tree.root,
        &snaps[r.applied],
    )
}

fn save(ctx: &mut Ctx, r: &mut Replica) -> Result<(), Stop> {
    match guard(|| serde_json::to_string(&r.tree.root)) {
        Ok(Ok(t)) => {
            r.saved = (t, r.applied);
            Ok(())
        }
        Ok(Err(e)) => ctx.fail_for(&[], "save", e.to_string()),
        Err(p) => ctx.unexpected_panic(&[], "save", &p),
    }
}

fn build(ctx: &mut Ctx, s: &mut S, step: &Step, shape: &Shape) -> Result<(), Stop> {
    let doc = s.snaps.last().unwrap().clone();
    let rows = treekit::rows(&doc);
    let path = rows[(step.arg(1) % rows.len() as u64) as usize].clone();
    let len = treekit::row_at(&doc, &path).unwrap().len();
    let a = (step.arg(2) % (len as u64 + 1)) as usize;
    let b = (step.arg(3) % (len as u64 + 1)) as usize;
    let (l, r) = (a.min(b), a.max(b));
    let mut n = step.arg(4) % 8;
    if treekit::size(&doc) > MAX_SIZE {
        n = 0;
    }
    let values = content(step.arg(5), shape, n, path.len());
    let reals = real::nodes_to_real(&values);
    let tree = &s.author;
    let kind = step.arg(0) % 3;
    enum Out {
        At(MinimalInputRowPosition),
        Over(MinimalInputRowRange),
    }
    let built = guard(|| {
        let row = tree
            .root_focus()
            .walk_down_indices(&real::path_to_real(&path));
        match kind {
            0 => {
                let (e, p) =
                    BasicEdit::remove_range(&InputRowRange::new(row, Offset(a), Offset(b)));
                (e, Out::At(p))
            }
            1 => {
                let (e, p) =
                    BasicEdit::insert_at_position(&InputRowPosition::new(row, Offset(a)), reals);
                (e, Out::At(p))
            }
            _ => {
                let (e, p) =
                    BasicEdit::replace_range(&InputRowRange::new(row, Offset(a), Offset(b)), reals);
                (e, Out::Over(p))
            }
        }
    });
    let (edits, out) = match built {
        Ok(v) => v,
        Err(p) => return unexpected(ctx, s.author_refused, "build", &p),
    };
    ctx.count("op.build");
    if a > b {
        ctx.count("probe.backward_selection_built");
    }
    // what it should do
    let mut want = doc.clone();
    let row = treekit::row_at_mut(&mut want, &path).unwrap();
    let (name, at): (&str, (usize, usize)) = match kind {
        0 => {
            row.drain(l..r);
            ("remove", (l, l))
        }
        1 => {
            row.splice(a..a, values.iter().cloned());
            ("insert", (a + values.len(), a + values.len()))
        }
        _ => {
            row.splice(l..r, values.iter().cloned());
            ("replace", (l, l + values.len()))
        }
    };
    let models: Result<Vec<MEdit>, String> = edits.iter().map(real::edit_from_real).collect();
    let models = match models {
        Ok(m) => m,
        Err(e) => return ctx.fail_for(&["C02"], "built-edit", e),
    };
    author_applies(ctx, s, &models, &edits)?;
    ctx.count("oracle.built_edit_effect");
    if s.snaps.last().unwrap() != &want {
        ctx.fail_for(
            &["C02"],
            "built-edit-effect",
            format!(
                "{name} of {l}..{r} in row {path:?} ({} new nodes) changed the document into {} instead of {}",
                values.len(),
                treekit::show(s.snaps.last().unwrap()),
                treekit::show(&want)
            ),
        )?;
    }
    let got = match &out {
        Out::At(p) => (real::path_from_real(&p.row_indices), p.offset.0, p.offset.0),
        Out::Over(p) => (real::path_from_real(&p.row_indices), p.start.0, p.end.0),
    };
    if got != (path.clone(), at.0, at.1) {
        ctx.fail_for(
            &["C02"],
            "reported-place",
            format!("{name} of {l}..{r} in row {path:?} reports {got:?}, expected {path:?} {at:?}"),
        )?;
    }
    Ok(())
}

/// An edit that (probably) does not fit the tree it is sent to.
fn bad_edit(ctx: &mut Ctx, log: &[BasicEdit], doc: &MRow, step: &Step, shape: &Shape) -> Option<MEdit> {
    let flavour = step.arg(1) % 12;
    let (x, y) = (step.arg(2) as usize, step.arg(3) as usize);
    let base = || -> Option<MEdit> { resolve_edit(doc, &step.a[5.min(step.a.len())..], shape) };
    let mut e = match flavour {
        // a stale or duplicated entry of the log
        0 | 1 if !log.is_empty() => {
            ctx.count("fault.stale_edit");
            return real::edit_from_real(&log[x % log.len()]).ok();
        }
        2 if !log.is_empty() => {
            ctx.count("fault.duplicated_edit");
            return real::edit_from_real(log.last().unwrap()).ok();
        }
        _ => base()?,
    };
    match flavour {
        3 => {
            ctx.count("fault.wrong_path");
            let (MEdit::Row { path, .. } | MEdit::Grid { path, .. }) = &mut e;
            match step.arg(4) % 4 {
                0 => path.push((x % 6, y % 4)),
                1 => {
                    path.pop();
                }
                2 => path.push((x, y * 1000)),
                _ => {
                    if let Some(l) = path.last_mut() {
                        l.1 += y;
                    } else {
                        path.push((0, y))
                    }
                }
            }
        }
        4 => {
            ctx.count("fault.wrong_offset");
            match &mut e {
                MEdit::Row { off, .. } => *off += 1 + x,
                MEdit::Grid { at, .. } => *at += 1 + x % 4,
            }
        }
        5 => {
            ctx.count("fault.huge_offset");
            let huge = [usize::MAX, usize::MAX / 2, isize::MAX as usize, usize::MAX - 1][x % 4];
            match &mut e {
                MEdit::Row { off, .. } => *off = huge,
                MEdit::Grid { at, .. } => *at = huge,
            }
        }
        6 => {
            ctx.count("fault.too_much_deleted");
            match &mut e {
                MEdit::Row { insert, values, .. } => {
                    *insert = false;
                    values.extend((0..1 + x).map(|_| MNode::Sym("z".into())));
                }
                MEdit::Grid {
                    insert,
                    cells,
                    width,
                    ..
                } => {
                    *insert = false;
                    let w = *width;
                    cells.extend((0..w * (1 + x % 3)).map(|_| vec![]));
                }
            }
        }
        7 => {
            ctx.count("fault.wrong_table_size");
            if let MEdit::Grid { cells, width, .. } = &mut e {
                match step.arg(4) % 3 {
                    0 => {
                        let w = *width;
                        cells.extend((0..w).map(|_| vec![]));
                    }
                    1 => {
                        *width += 1 + x % 3;
                        while cells.len() % *width != 0 {
                            cells.push(vec![]);
                        }
                    }
                    _ => {
                        let n = cells.len();
                        cells.truncate(n - (*width).min(n));
                    }
                }
            }
        }
        8 => {
            ctx.count("fault.empty_block");
            if let MEdit::Grid { cells, width, .. } = &mut e {
                cells.clear();
                if x % 2 == 0 {
                    *width = 0;
                }
            }
        }
        9 => {
            ctx.count("fault.not_a_table");
            let places: Vec<(treekit::Path, usize)> = treekit::rows(doc)
                .into_iter()
                .flat_map(|p| {
                    let n = treekit::row_at(doc, &p).unwrap().len();
                    (0..n).map(move |i| (p.clone(), i)).collect::<Vec<_>>()
                })
                .collect();
            if !places.is_empty() {
                let (p, i) = places[y % places.len()].clone();
                let (w, h) = match &treekit::row_at(doc, &p).unwrap()[i] {
                    MNode::Box(_, w, cells) => (*w, cells.len() / *w),
                    MNode::Sym(_) => (1, 1),
                };
                let cols = x % 2 == 0;
                let insert = x % 4 < 2;
                e = MEdit::Grid {
                    insert,
                    path: p,
                    idx: i,
                    cols,
                    at: 0,
                    width: if cols { 1 } else { w },
                    cells: vec![vec![]; if cols { h } else { w }],
                };
            }
        }
        10 => {
            ctx.count("fault.wrong_element");
            if let MEdit::Grid { idx, .. } = &mut e {
                *idx += 1 + x;
            }
        }
        11 => {
            // every column of a table
            ctx.count("fault.all_columns_deleted");
            let t = treekit::tables(doc);
            if !t.is_empty() {
                let (p, i, w, h) = t[x % t.len()].clone();
                e = MEdit::Grid {
                    insert: false,
                    path: p,
                    idx: i,
                    cols: true,
                    at: 0,
                    width: w,
                    cells: vec![vec![]; w * h],
                };
            }
        }
        _ => {}
    }
    Some(e)
}

fn to_real(e: &MEdit) -> BasicEdit {
    if let MEdit::Grid {
        insert,
        path,
        idx,
        cols,
        at,
        width: 0,
        ..
    } = e
    {
        return BasicEdit::Grid(GridEdit {
            edit_type: if *insert {
                EditType::Insert
            } else {
                EditType::Delete
            },
            element_indices: ElementIndices {
                row_indices: real::path_to_real(path),
                index: *idx,
            },
            direction: if *cols {
                GridDirection::Column
            } else {
                GridDirection::Row
            },
            row_or_column: Offset(*at),
            values: GridVec::default(),
        });
    }
    real::edit_to_real(e)
}

fn bad(ctx: &mut Ctx, s: &mut S, step: &Step, shape: &Shape) -> Result<(), Stop> {
    // target: the author (0) or a replica
    let n = s.replicas.len() as u64 + 1;
    let target = (step.arg(0) % n) as usize;
    let doc = if target == 0 {
        s.snaps.last().unwrap().clone()
    } else {
        s.snaps[s.replicas[target - 1].applied].clone()
    };
    let Some(e) = bad_edit(ctx, &s.log, &doc, step, shape) else {
        return Ok(());
    };
    let mut m = doc.clone();
    let fits = treekit::apply(&mut m, &e);
    let r = to_real(&e);
    let Err(why) = fits else {
        // It happens to fit: it is an ordinary edit.
        ctx.count("probe.bad_edit_fits_after_all");
        if target == 0 && treekit::depth(&m) <= MAX_DEPTH && treekit::size(&m) <= 2 * MAX_SIZE {
            return author_applies(ctx, s, &[e], &[r]);
        }
        return Ok(());
    };
    ctx.event(format_args!("refused at {target}: {} ({why})", e.brief()));
    ctx.count("op.edit_that_does_not_fit");
    ctx.nontrivial = true;
    let (tree, refused) = if target == 0 {
        (&mut s.author, &mut s.author_refused)
    } else {
        let x = &mut s.replicas[target - 1];
        (&mut x.tree, &mut x.refused)
    };
    *refused += 1;
    let res = guard(|| tree.apply_edit(&r));
    match res {
        Ok(()) => ctx.count("probe.refused_without_panic"),
        Err(p) => {
            ctx.count("probe.refused_with_panic");
            ctx.event(format_args!("panic: {}", p.message));
        }
    }
    ctx.count("oracle.untouched_after_refusal");
    // Reading a grid without columns divides by zero: guard the comparison.
    let d = match guard(|| real::diff(&tree.root, &doc)) {
        Ok(d) => d,
        Err(p) => Some(format!("the document cannot be read any more: {}", p.message)),
    };
    if let Some(d) = d {
        ctx.fail_for(
            &["C05"],
            "changed-by-refused-edit",
            format!("{} does not fit ({why}) but changed the document: {d}", e.brief()),
        )?;
    }
    Ok(())
}

pub fn run(plan: &Plan, ctx: &mut Ctx) -> Result<(), Stop> {
    let shape = gen::shape_from(plan);
    let doc = gen::initial_document(plan);
    let start = real::row_to_real(&doc);
    let text = serde_json::to_string(&start).unwrap_or_default();
    let n = plan.cfg("replicas").clamp(1, 4) as usize;
    let mut s = S {
        author: InputTree::new(start.clone()),
        author_refused: 0,
        log: vec![],
        snaps: vec![doc],
        replicas: (0..n)
            .map(|_| Replica {
                tree: InputTree::new(start.clone()),
                applied: 0,
                buffer: BTreeMap::new(),
                saved: (text.clone(), 0),
                cut: false,
                refused: 0,
            })
            .collect(),
        net: vec![],
    };
    for step in &plan.steps {
        ctx.now_us += 500;
        let op: &str = &step.op;
        ctx.event(format_args!(
            "step {op} {:?} log={} net={}",
            step.a,
            s.log.len(),
            s.net.len()
        ));
        ctx.sched(op, step.arg(0));
        match op {
            "edit" => {
                let edits = resolve_batch(s.snaps.last().unwrap(), step, 0, &shape);
                let reals: Vec<BasicEdit> = edits.iter().map(real::edit_to_real).collect();
                if !edits.is_empty() {
                    author_applies(ctx, &mut s, &edits, &reals)?;
                }
            }
            "build" => build(ctx, &mut s, step, &shape)?,
            "bad" => bad(ctx, &mut s, step, &shape)?,
            "deliver" if !s.net.is_empty() => {
                let i = (step.arg(0) % s.net.len() as u64) as usize;
                if i > 0 {
                    ctx.count("fault.out_of_order_delivery");
                }
                ctx.now_us += step.arg(0) * 37;
                let m = s.net.remove(i);
                receive(ctx, &mut s, m)?;
            }
            "drop" if !s.net.is_empty() => {
                ctx.count("fault.message_dropped");
                let i = (step.arg(0) % s.net.len() as u64) as usize;
                s.net.remove(i);
            }
            "dup" if !s.net.is_empty() => {
                ctx.count("fault.message_duplicated");
                let i = (step.arg(0) % s.net.len() as u64) as usize;
                let m = &s.net[i];
                let m = Msg {
                    to: m.to,
                    first: m.first,
                    last: m.last,
                };
                s.net.push(m);
            }
            "reorder" if s.net.len() > 1 => {
                ctx.count("fault.messages_reordered");
                let n = s.net.len() as u64;
                s.net
                    .swap((step.arg(0) % n) as usize, (step.arg(1) % n) as usize);
            }
            "partition" => {
                ctx.count("fault.partition");
                let i = (step.arg(0) % n as u64) as usize;
                s.replicas[i].cut = true;
            }
            "heal" => {
                ctx.count("fault.heal");
                let i = (step.arg(0) % n as u64) as usize;
                s.replicas[i].cut = false;
            }
            "save" => {
                let i = (step.arg(0) % n as u64) as usize;
                ctx.count("op.save");
                save(ctx, &mut s.replicas[i])?;
            }
            "crash" => {
                ctx.count("fault.crash_restart");
                let i = (step.arg(0) % n as u64) as usize;
                let r = &mut s.replicas[i];
                let (text, applied) = r.saved.clone();
                match guard(|| serde_json::from_str::<InputRow>(&text)) {
                    Ok(Ok(root)) => {
                        r.tree = InputTree::new(root);
                        if applied < r.applied {
                            ctx.count("probe.entries_reapplied_after_crash");
                        }
                        r.applied = applied;
                        r.buffer.clear();
                    }
                    Ok(Err(e)) => return ctx.fail_for(&[], "load", e.to_string()),
                    Err(p) => return ctx.unexpected_panic(&[], "load", &p),
                }
                let r = &s.replicas[i];
                check_doc(
                    ctx,
                    r.refused,
                    "restart-differs",
                    format!("replica {i} restarted at entry {applied}"),
                    &r.tree.root,
                    &s.snaps[applied],
                )?;
                // it asks for what it misses
                if s.log.len() > applied {
                    let last = s.log.len();
                    s.net.push(Msg {
                        to: i,
                        first: applied,
                        last,
                    });
                }
            }
            "sync" => settle(ctx, &mut s)?,
            _ => {}
        }
    }
    // Faults stop: everything is retransmitted, all copies must agree.
    for r in &mut s.replicas {
        r.cut = false;
    }
    settle(ctx, &mut s)?;
    for i in 0..s.replicas.len() {
        ctx.count("oracle.converged");
        if s.replicas[i].applied != s.log.len() {
            return ctx.fail_for(
                &["C02"],
                "not-converged",
                format!("replica {i} applied {} of {}", s.replicas[i].applied, s.log.len()),
            );
        }
    }
    Ok(())
}

fn settle(ctx: &mut Ctx, s: &mut S) -> Result<(), Stop> {
    let net = std::mem::take(&mut s.net);
    for m in net {
        receive(ctx, s, m)?;
    }
    for i in 0..s.replicas.len() {
        let (first, last) = (s.replicas[i].applied, s.log.len());
        if first < last {
            ctx.count("op.retransmit");
            receive(ctx, s, Msg { to: i, first, last })?;
        }
    }
    Ok(())
}

pub fn fixed(prop: &str) -> Vec<(String, Plan)> {
    let mut v = vec![];
    if prop == "C02" {
        for kind in [2u64, 3, 4, 5] {
            for at in 0..3u64 {
                let mut plan = table_doc(at);
                plan.steps.push(Step::new("edit", vec![kind, 0, at, 0, 5]));
                plan.steps.push(Step::new("edit", vec![kind, 1, at, 1, 6]));
                v.push((format!("table edit kind {kind} at {at}"), plan));
            }
        }
        let (mut plan, edits) = huge();
        for e in edits {
            plan.steps.push(Step::new("edit", e));
        }
        for i in 0..4 {
            plan.steps
                .push(Step::new("build", vec![i % 3, 0, 65_900 + i, 65_900, 2, i]));
        }
        plan.steps.push(Step::new("sync", vec![]));
        v.push(("a row of more than 65536 elements".into(), plan));
        for (name, mut plan) in gen::vast() {
            for e in vast_edits() {
                plan.steps.push(Step::new("edit", e));
            }
            plan.steps.push(Step::new("sync", vec![]));
            v.push((name.into(), plan));
        }
    } else {
        for flavour in 3..12u64 {
            for k in 0..12u64 {
                let mut plan = table_doc(k);
                plan.steps.push(Step::new(
                    "bad",
                    vec![0, flavour, k, k * 5, k, 2 + k % 4, k, k % 3, k % 4, k],
                ));
                v.push((format!("bad edit {flavour}/{k}"), plan));
            }
        }
    }
    v
}

fn table_doc(seed: u64) -> Plan {
    let mut plan = Plan::default();
    for (k, x) in [
        ("alphabet", 0),
        ("boxes", 900),
        ("tables", 900),
        ("max_depth", 2),
        ("max_cells", 9),
        ("doc_n", 3),
        ("doc_seed", 77 + seed),
        ("replicas", 1),
    ] {
        plan.cfg.insert(k.into(), x);
    }
    plan
}
