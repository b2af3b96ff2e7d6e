//! C21: walkers that move through the document by focuses while it is edited,
//! saved and reloaded.
use crate::common::*;
use input_tree::{
    editing::editable::Editable,
    focus::{
        InputFocusNode, InputFocusRow, InputGridRange, InputRowPosition, InputRowRange,
        MinimalInputGridRange, MinimalInputRowPosition, MinimalInputRowRange,
    },
    direction::HorizontalDirection,
    grid::{Grid, GridRectangle, Index2D},
    input_tree::InputTree,
    row::{ElementIndices, InputRow, Offset, RowIndex},
};
use kernel::{guard, Ctx, Plan, Rng, Step, Stop};
use treekit::{codec, gen, real, MNode, MRow, Path};

pub fn generate(thorough: bool, rng: &mut Rng) -> Plan {
    let mut plan = Plan::default();
    gen::swarm_shape(rng, &mut plan);
    let grid = [0, 150, 500][rng.usize(3)];
    let (low, high) = if thorough { (10, 120) } else { (6, 60) };
    let len = run_length(rng, &mut plan, 40, low, high);
    let w_up = [10, 25, 40][rng.usize(3)];
    let w_edit = [0, 4, 12][rng.usize(3)];
    for _ in 0..len {
        let w = rng.below(8);
        let s = match rng.weighted(&[40, w_up, 10, 8, 6, 8, 14, 12, 10, w_edit, 3]) {
            0 => Step::new("down", vec![w, rng.below(24), rng.below(2)]),
            1 => Step::new("up", vec![w, 1 + rng.skewed(4)]),
            2 => Step::new("cell", vec![w, rng.below(12), rng.below(6)]),
            3 => Step::new("walk", vec![w, which(rng), rng.below(3), rng.below(5000)]),
            4 => Step::new("start", vec![w]),
            5 => Step::new("clone", vec![w]),
            6 => Step::new("select", vec![w, place_in(rng), place_in(rng)]),
            7 => Step::new("cells", vec![w, rng.below(5000), rng.below(5000), rng.below(3)]),
            8 => Step::new("compare", vec![w, rng.below(8)]),
            9 => {
                let mut a = vec![];
                for _ in 0..1 + rng.skewed(3) {
                    draw_edit(rng, grid, &mut a);
                }
                Step::new("edit", a)
            }
            _ => Step::new("crash", vec![rng.below(5000)]),
        };
        plan.steps.push(s);
    }
    plan
}

pub fn fixed() -> Vec<(String, Plan)> {
    let mut v = vec![];
    let mut walk = |name: &str, mut plan: Plan, edits: Vec<Vec<u64>>| {
        let mut rng = Rng::new(21);
        for k in 0..40u64 {
            let place = rng.range(65_500, 66_150);
            plan.steps.push(Step::new("walk", vec![0, rng.below(1 << 40), 0, place]));
            plan.steps.push(Step::new("select", vec![0, place, rng.range(0, 66_150)]));
            plan.steps.push(Step::new("down", vec![0, place, 0]));
            plan.steps.push(Step::new("cells", vec![0, rng.below(1 << 40), rng.below(1 << 40), 0]));
            plan.steps.push(Step::new("down", vec![0, place, 0]));
            plan.steps.push(Step::new("up", vec![0, 1 + k % 3]));
            // far into the last table
            plan.steps.push(Step::new("start", vec![0]));
            plan.steps.push(Step::new("cell", vec![0, k % 3, rng.range(65_530, 65_560)]));
            plan.steps.push(Step::new("up", vec![0, 1]));
            plan.steps.push(Step::new("cells", vec![0, rng.range(65_530, 65_800), rng.range(65_530, 65_800), k % 3]));
            plan.steps.push(Step::new("down", vec![0, rng.range(65_530, 65_560), 1]));
            if let Some(e) = edits.get(k as usize) {
                plan.steps.push(Step::new("edit", e.clone()));
            }
        }
        v.push((name.to_string(), plan));
    };
    let (plan, edits) = huge();
    walk("huge row", plan, edits);
    for (name, plan) in gen::vast() {
        walk(name, plan, vast_edits());
    }
    v
}

#[derive(Clone)]
enum At<'a> {
    Row(InputFocusRow<'a>),
    Elem(InputFocusNode<'a>),
}

#[derive(Clone)]
struct Walker<'a> {
    at: At<'a>,
    /// where the model says it is
    path: Path,
    elem: Option<usize>,
}

type Wrong = (&'static str, String);
fn wrong<T>(sig: &'static str, msg: String) -> Result<T, Wrong> {
    Err((sig, msg))
}
macro_rules! same {
    ($sig:literal, $what:expr, $got:expr, $want:expr) => {{
        let (got, want) = ($got, $want);
        if got != want {
            return wrong($sig, format!("{} is {:?}, expected {:?}", $what, got, want));
        }
    }};
}

fn place_name(path: &[(usize, usize)], elem: Option<usize>) -> String {
    match elem {
        Some(e) => format!("element {e} of row {path:?}"),
        None => format!("row {path:?}"),
    }
}

/// Does the focus show what the place it should be at holds?
fn look(w: &Walker, doc: &MRow, deep: bool) -> Result<(), Wrong> {
    let row = treekit::row_at(doc, &w.path).expect("the model's place exists");
    let at = place_name(&w.path, w.elem);
    match (&w.at, w.elem) {
        (At::Row(r), None) => {
            same!("place", format!("the place of the focus on {at}"), real::path_from_real(r.row_indices()), w.path.clone());
            same!("row-length", format!("the length seen from {at}"), r.len(), row.len());
            same!("row-length", format!("emptiness seen from {at}"), r.is_empty(), row.is_empty());
            same!("index-in-parent", format!("the index of {at} in its parent"), r.index_in_parent(), w.path.last().map(|p| p.1));
            if deep {
                if let Some(d) = real::diff(r.row(), row) {
                    return wrong("content", format!("the focus on {at} shows another row: {d}"));
                }
            } else {
                same!("content", format!("the length of the row that the focus on {at} shows"), r.row().len(), row.len());
            }
            let n = row.len();
            for k in [0, 1, n / 2, n.saturating_sub(1), n, n + 1, n + 7] {
                match (r.node_at(k), row.get(k)) {
                    (None, None) => {}
                    (Some(a), Some(b)) => {
                        if let Some(d) = shown(a, b) {
                            return wrong("element", format!("element {k} of {at}: {d}"));
                        }
                    }
                    (a, b) => return wrong("element", format!("element {k} of {at} exists: {}, expected {}", a.is_some(), b.is_some())),
                }
                if k <= n {
                    same!("beside-offset", format!("the element left of offset {k} of {at}"),
                        r.offset_to_index(Offset(k), HorizontalDirection::Left), k.checked_sub(1));
                    same!("beside-offset", format!("the element right of offset {k} of {at}"),
                        r.offset_to_index(Offset(k), HorizontalDirection::Right), Some(k).filter(|k| *k < n));
                }
            }
        }
        (At::Elem(e), Some(i)) => {
            let ElementIndices { row_indices, index } = e.element_indices();
            same!("place", format!("the row of the focus on {at}"), real::path_from_real(&row_indices), w.path.clone());
            same!("place", format!("the index of the focus on {at}"), index, i);
            same!("index-in-parent", format!("the index of {at} in its parent"), e.index_in_parent(), i);
            let d = if deep {
                real::diff_nodes(std::slice::from_ref(e.node()), &row[i..i + 1], &mut vec![])
            } else {
                shown(e.node(), &row[i])
            };
            if let Some(d) = d {
                return wrong("content", format!("the focus on {at} shows another element: {d}"));
            }
        }
        _ => unreachable!(),
    }
    Ok(())
}

/// A shallow comparison.
fn shown(a: &input_tree::node::InputNode, b: &MNode) -> Option<String> {
    match b {
        MNode::Sym(_) => real::diff_nodes(std::slice::from_ref(a), std::slice::from_ref(b), &mut vec![]),
        MNode::Box(_, w, cells) => match a.grid() {
            None => Some("is a symbol, expected a container".into()),
            Some(g) if g.width() != *w || g.values().count() != cells.len() => Some(format!(
                "{} cells in {} columns, expected {} in {w}",
                g.values().count(),
                g.width(),
                cells.len()
            )),
            Some(g) => g
                .values()
                .zip(cells)
                .position(|(a, b)| a.len() != b.len())
                .map(|c| format!("another cell {c}")),
        },
    }
}

fn down<'a>(w: &Walker<'a>, k: u64, doc: &MRow, seen: &mut Vec<&'static str>) -> Result<Walker<'a>, Wrong> {
    let row = treekit::row_at(doc, &w.path).unwrap();
    match (&w.at, w.elem) {
        (At::Row(r), None) => {
            let i = (k % (row.len() as u64 + 1)) as usize;
            match (r.clone().child_at(i), i < row.len()) {
                (Some(e), true) => {
                    seen.push("op.down_to_element");
                    Ok(Walker { at: At::Elem(e), path: w.path.clone(), elem: Some(i) })
                }
                (None, false) => {
                    seen.push("probe.no_such_element");
                    Ok(w.clone())
                }
                (f, _) => wrong("move", format!("element {i} of {} is found: {}", place_name(&w.path, None), f.is_some())),
            }
        }
        (At::Elem(e), Some(i)) => {
            let n = match &row[i] {
                MNode::Box(_, _, cells) => cells.len(),
                MNode::Sym(_) => 0,
            };
            let c = (k % (n as u64 + 1)) as usize;
            match (e.clone().child_at(c), c < n) {
                (Ok(r), true) => {
                    seen.push("op.down_to_cell");
                    let mut path = w.path.clone();
                    path.push((i, c));
                    Ok(Walker { at: At::Row(r), path, elem: None })
                }
                (Err(back), false) => {
                    seen.push("probe.no_such_cell");
                    if &back != e {
                        return wrong("refused-move", format!("going to a missing cell of {} moved the focus", place_name(&w.path, w.elem)));
                    }
                    Ok(Walker { at: At::Elem(back), ..w.clone() })
                }
                (f, _) => wrong("move", format!("cell {c} of {} is found: {}", place_name(&w.path, w.elem), f.is_ok())),
            }
        }
        _ => unreachable!(),
    }
}

fn up<'a>(w: &Walker<'a>, seen: &mut Vec<&'static str>) -> Result<Walker<'a>, Wrong> {
    match (w.at.clone(), w.elem) {
        (At::Elem(e), _) => {
            seen.push("op.up_to_row");
            Ok(Walker { at: At::Row(e.parent()), path: w.path.clone(), elem: None })
        }
        (At::Row(r), _) => {
            let mut path = w.path.clone();
            match (r.parent(), path.pop()) {
                (Some(e), Some((i, _))) => {
                    seen.push("op.up_to_element");
                    Ok(Walker { at: At::Elem(e), path, elem: Some(i) })
                }
                (None, None) => {
                    seen.push("probe.root_has_no_parent");
                    Ok(w.clone())
                }
                (f, _) => wrong("move", format!("{} has a parent: {}", place_name(&w.path, None), f.is_some())),
            }
        }
    }
}

fn walked<'a>(root: &'a InputRow, path: &[(usize, usize)], elem: Option<usize>) -> Result<Walker<'a>, Wrong> {
    let row = InputFocusRow::from_root(root).walk_down_indices(&real::path_to_real(path));
    let at = match elem {
        None => At::Row(row),
        Some(i) => match row.child_at(i) {
            Some(e) => At::Elem(e),
            None => return wrong("move", format!("{} is not found", place_name(path, elem))),
        },
    };
    Ok(Walker { at, path: path.to_vec(), elem })
}

/// A selection in the row of a focus.
fn select(r: &InputFocusRow, root: &InputRow, path: &Path, row: &MRow, a: u64, b: u64, seen: &mut Vec<&'static str>) -> Result<(), Wrong> {
    let n = row.len();
    let (a, b) = ((a % (n as u64 + 1)) as usize, (b % (n as u64 + 1)) as usize);
    let (left, right) = (a.min(b), a.max(b));
    let at = format!("{a}..{b} in row {path:?}");
    seen.push(match a.cmp(&b) {
        std::cmp::Ordering::Less => "probe.forward_selection",
        std::cmp::Ordering::Equal => "probe.empty_selection",
        std::cmp::Ordering::Greater => "probe.backward_selection",
    });
    let pos = InputRowPosition::new(r.clone(), Offset(a));
    same!("position", format!("the position {a} in row {path:?} saved"), pos.to_minimal(), real::position(path, a));
    same!("position", "the row of a position", real::path_from_real(pos.row_indices()), path.clone());
    if InputRowPosition::from_minimal(InputFocusRow::from_root(root), &real::position(path, a)) != pos {
        return wrong("position", format!("the saved position {a} in row {path:?} leads elsewhere"));
    }
    let sel = InputRowRange::new(r.clone(), Offset(a), Offset(b));
    same!("selection", format!("the left end of {at}"), sel.left_offset().0, left);
    same!("selection", format!("the right end of {at}"), sel.right_offset().0, right);
    same!("selection", format!("the length of {at}"), sel.len(), right - left);
    same!("selection", format!("emptiness of {at}"), (sel.is_empty(), sel.is_collapsed()), (a == b, a == b));
    same!("selection", format!("the direction of {at}"), sel.is_forwards(), a <= b);
    for (what, p, want) in [
        ("start", sel.start_position(), a),
        ("end", sel.end_position(), b),
        ("left", sel.left_position(), left),
        ("right", sel.right_position(), right),
    ] {
        same!("selection", format!("the {what} position of {at}"), p.to_minimal(), real::position(path, want));
    }
    if let Some(d) = real::diff_nodes(sel.values(), &row[left..right], &mut path.clone()) {
        return wrong("selected-content", format!("{at} shows other elements: {d}"));
    }
    same!("selection", format!("{at} saved"), sel.to_minimal(), real::range(path, a, b));
    if InputRowRange::from_minimal(InputFocusRow::from_root(root), &real::range(path, a, b)) != sel {
        return wrong("selection", format!("the saved selection {at} leads elsewhere"));
    }
    let here: InputRowRange = (&pos).into();
    same!("selection", format!("the empty selection at {a} in row {path:?}"), here.to_minimal(), real::range(path, a, a));
    same!("equality", format!("equality of {at} and its reverse"), sel == InputRowRange::new(r.clone(), Offset(b), Offset(a)), a == b);
    for (off, inside) in [(left, true), (right, true), (left.wrapping_sub(1), false), (right + 1, false)] {
        if off > n {
            continue;
        }
        let p = InputRowPosition::new(r.clone(), Offset(off));
        same!("contains", format!("whether {at} contains offset {off}"), (sel.contains(&p), p.in_range(sel.clone())), (inside, inside));
    }
    if guard(|| drop(InputRowPosition::new(r.clone(), Offset(n + 1)))).is_ok()
        || guard(|| drop(InputRowRange::new(r.clone(), Offset(n + 1), Offset(0)))).is_ok()
        || guard(|| drop(InputRowRange::new(r.clone(), Offset(0), Offset(n + 1)))).is_ok()
    {
        return wrong("beyond-the-row", format!("a place beyond the end of row {path:?} is accepted"));
    }
    Ok(())
}

/// A selection of table cells around a focused container.
#[allow(clippy::too_many_arguments)]
fn cells(e: &InputFocusNode, root: &InputRow, path: &Path, i: usize, cells: &[MRow], w: usize, a: u64, b: u64, mode: u64, seen: &mut Vec<&'static str>) -> Result<(), Wrong> {
    let n = cells.len();
    if n == 0 {
        return Ok(());
    }
    let (a, b) = ((a % n as u64) as usize, (b % n as u64) as usize);
    let (x, y) = ((a % w).min(b % w), (a / w).min(b / w));
    let (x2, y2) = ((a % w).max(b % w), (a / w).max(b / w));
    let at = format!("cells ({x}, {y}) to ({x2}, {y2}) of {}", place_name(path, Some(i)));
    let collapsed = mode == 2;
    let rect = if collapsed {
        GridRectangle::new(a..a, w)
    } else {
        let grid = e.node().grid().ok_or(("content", format!("{at}: not a container")))?;
        let (p, q) = (Index2D::new(x, y, w), Index2D::new(x2, y2, w));
        let (p, q) = if mode == 1 { (q, p) } else { (p, q) };
        GridRectangle::from_indices_inclusive(p, q, grid)
    };
    seen.push(if collapsed { "probe.empty_cells" } else { "probe.cells" });
    let sel = InputGridRange::new(e.clone(), rect);
    let (start, end) = if collapsed { (a, a) } else { (y * w + x, y2 * w + x2 + 1) };
    same!("cells", format!("the first cell of {at}"), sel.top_left_index(), (start % w, start / w));
    same!("cells", format!("the last cell of {at}"), sel.bottom_right_index(), (!collapsed).then_some((x2, y2)));
    same!("cells", format!("emptiness of {at}"), sel.is_collapsed(), collapsed);
    same!("cells", format!("the table of {at}"), (sel.grid().width(), sel.grid().height()), (w, n / w));
    for c in [0, a, b, n - 1, n, n + w] {
        let want = cells.get(c);
        match (sel.get_row(c), want) {
            (None, None) => {}
            (Some(r), Some(m)) => {
                if let Some(d) = real::diff(r, m) {
                    return wrong("cells", format!("cell {c} around {at}: {d}"));
                }
            }
            (r, _) => return wrong("cells", format!("cell {c} around {at} is found: {}", r.is_some())),
        }
    }
    let min = sel.to_minimal();
    same!("cells", format!("{at} saved"), serde_json::to_value(&min).unwrap_or_default(), codec::cells(path, i, start, end, w));
    if InputGridRange::from_minimal(InputFocusRow::from_root(root), &min) != sel {
        return wrong("cells", format!("the saved selection of {at} leads elsewhere"));
    }
    let other = InputGridRange::new(e.clone(), GridRectangle::new(start..end + 1, w));
    if other == sel {
        return wrong("equality", format!("{at} equals a selection with one more cell"));
    }
    Ok(())
}

fn equal(a: &Walker, b: &Walker) -> Option<bool> {
    match (&a.at, &b.at) {
        (At::Row(x), At::Row(y)) => Some(x == y),
        (At::Elem(x), At::Elem(y)) => Some(x == y),
        _ => None,
    }
}

fn act<'a>(ws: &mut Vec<Walker<'a>>, step: &Step, root: &'a InputRow, doc: &MRow, deep: bool, seen: &mut Vec<&'static str>) -> Result<(), Wrong> {
    if ws.is_empty() {
        ws.push(Walker { at: At::Row(InputFocusRow::from_root(root)), path: vec![], elem: None });
    }
    let k = (step.arg(0) % ws.len() as u64) as usize;
    let w = ws[k].clone();
    let op: &str = &step.op;
    match op {
        "start" => {
            ws[k] = Walker { at: At::Row(InputFocusRow::from_root(root)), path: vec![], elem: None };
            look(&ws[k], doc, deep)?;
        }
        "walk" => {
            let rows = treekit::rows(doc);
            let path = &rows[(step.arg(1) % rows.len() as u64) as usize];
            let n = treekit::row_at(doc, path).unwrap().len();
            let elem = (step.arg(2) == 1 && n > 0).then(|| (step.arg(3) % n.max(1) as u64) as usize);
            seen.push("op.walk_down_path");
            ws[k] = walked(root, path, elem)?;
            look(&ws[k], doc, deep)?;
        }
        "down" => {
            let next = down(&w, step.arg(1), doc, seen)?;
            look(&next, doc, deep)?;
            if next.path != w.path || next.elem != w.elem {
                // and the way back
                let back = up(&next, seen)?;
                look(&back, doc, deep)?;
                if equal(&back, &w) != Some(true) {
                    return wrong("way-back", format!("down from {} and up again leads elsewhere", place_name(&w.path, w.elem)));
                }
                if step.arg(2) == 1 {
                    look(&w, doc, deep)?;
                }
            }
            ws[k] = next;
        }
        "up" => {
            let mut w = w;
            for _ in 0..step.arg(1).clamp(1, 50) {
                w = up(&w, seen)?;
                look(&w, doc, deep)?;
            }
            ws[k] = w;
        }
        "cell" => {
            let At::Row(r) = &w.at else { return Ok(()) };
            let row = treekit::row_at(doc, &w.path).unwrap();
            let boxes: Vec<usize> = (0..row.len()).filter(|i| matches!(row[*i], MNode::Box(..))).collect();
            let i = match boxes.len() {
                0 => step.arg(1) as usize,
                n if step.arg(1) < 10 => boxes[step.arg(1) as usize % n],
                _ => step.arg(1) as usize,
            };
            let c = step.arg(2) as usize;
            let exists = matches!(row.get(i), Some(MNode::Box(_, _, cells)) if c < cells.len());
            match (r.clone().row_at(RowIndex(i, c)), exists) {
                (Some(r), true) => {
                    seen.push("op.straight_to_cell");
                    let mut path = w.path.clone();
                    path.push((i, c));
                    ws[k] = Walker { at: At::Row(r), path, elem: None };
                    look(&ws[k], doc, deep)?;
                }
                (None, false) => seen.push("probe.no_such_cell"),
                (f, _) => return wrong("move", format!("cell {c} of element {i} of {} is found: {}", place_name(&w.path, None), f.is_some())),
            }
        }
        "clone" => {
            if ws.len() < 8 {
                ws.push(w);
            }
        }
        "select" => {
            if let At::Row(r) = &w.at {
                let row = treekit::row_at(doc, &w.path).unwrap();
                select(r, root, &w.path, row, step.arg(1), step.arg(2), seen)?;
                look(&w, doc, false)?;
            }
        }
        "cells" => {
            let row = treekit::row_at(doc, &w.path).unwrap();
            // the focused container, or the last one in the focused row
            let (e, i) = match (&w.at, w.elem) {
                (At::Elem(e), Some(i)) => (Some(e.clone()), i),
                (At::Row(r), _) => match row.iter().rposition(|n| matches!(n, MNode::Box(..))) {
                    Some(i) => (r.clone().child_at(i), i),
                    None => return Ok(()),
                },
                _ => unreachable!(),
            };
            if let (Some(e), MNode::Box(_, width, all)) = (e, &row[i]) {
                cells(&e, root, &w.path, i, all, *width, step.arg(1), step.arg(2), step.arg(3), seen)?;
            }
        }
        "compare" => {
            let o = &ws[(step.arg(1) % ws.len() as u64) as usize];
            if let Some(eq) = equal(&w, o) {
                seen.push("probe.compared");
                same!("equality", format!("equality of {} and {}", place_name(&w.path, w.elem), place_name(&o.path, o.elem)), eq, (&w.path, w.elem) == (&o.path, o.elem));
            }
        }
        _ => {}
    }
    Ok(())
}

pub fn run(plan: &Plan, ctx: &mut Ctx) -> Result<(), Stop> {
    let shape = gen::shape_from(plan);
    let mut doc = gen::initial_document(plan);
    let mut tree = InputTree::new(real::row_to_real(&doc));
    // where the walkers are while the document is edited or reloaded
    let mut saved: Vec<(Path, Option<usize>)> = vec![(vec![], None)];
    let mut next = 0;
    while next < plan.steps.len() {
        let deep = treekit::size(&doc) < 2000;
        let mut ws: Vec<Walker> = vec![];
        for (path, elem) in saved.drain(..) {
            match guard(|| walked(&tree.root, &path, elem).and_then(|w| look(&w, &doc, deep).map(|_| w))) {
                Ok(Ok(w)) => ws.push(w),
                Ok(Err((sig, msg))) => return ctx.fail(sig, msg),
                Err(p) => return ctx.unexpected_panic(&["C21"], "walk", &p),
            }
        }
        while let Some(step) = plan.steps.get(next) {
            if step.op == "edit" || step.op == "crash" {
                break;
            }
            next += 1;
            ctx.now_us += 100;
            ctx.event(format_args!("step {} {:?} walkers={}", step.op, step.a, ws.len()));
            ctx.sched(&step.op, step.arg(0));
            let mut seen = vec![];
            let r = guard(|| act(&mut ws, step, &tree.root, &doc, deep, &mut seen));
            for s in seen {
                ctx.count(s);
                ctx.nontrivial = true;
            }
            match r {
                Ok(Ok(())) => {}
                Ok(Err((sig, msg))) => return ctx.fail(sig, msg),
                Err(p) => return ctx.unexpected_panic(&["C21"], "walk", &p),
            }
            if let Some(w) = ws.get((step.arg(0) % ws.len().max(1) as u64) as usize) {
                let mut h = vec![w.elem.map(|e| e as u64 + 1).unwrap_or(0)];
                h.extend(w.path.iter().flat_map(|(a, b)| [*a as u64, *b as u64]));
                ctx.event(format_args!("at {:?}", h));
                ctx.state(kernel::rng::mix(&h));
            }
        }
        // the other walkers stayed where they were
        for w in &ws {
            match guard(|| look(w, &doc, deep)) {
                Ok(Ok(())) => {}
                Ok(Err((sig, msg))) => return ctx.fail(sig, format!("later: {msg}")),
                Err(p) => return ctx.unexpected_panic(&["C21"], "walk", &p),
            }
        }
        saved = ws.iter().map(|w| (w.path.clone(), w.elem)).collect();
        drop(ws);
        let Some(step) = plan.steps.get(next) else { break };
        next += 1;
        ctx.now_us += 500;
        ctx.event(format_args!("step {} {:?}", step.op, step.a));
        ctx.sched(&step.op, 0);
        if step.op == "edit" {
            for e in resolve_batch(&doc, step, 0, &shape) {
                if treekit::apply(&mut doc, &e).is_err() {
                    continue;
                }
                let real_edit = real::edit_to_real(&e);
                ctx.count("op.edit");
                if let Err(p) = guard(|| tree.apply_edit(&real_edit)) {
                    return Err(Stop::Foreign(format!("an edit fails: {p:?}")));
                }
            }
            if real::diff(&tree.root, &doc).is_some() {
                return Err(Stop::Foreign("an edit changed something else".into()));
            }
        } else {
            ctx.count("fault.crash_and_restart");
            crash(ctx, &mut tree, &doc, &mut saved, step.arg(0))?;
        }
        // places that no longer exist are left
        saved.retain(|(path, elem)| {
            treekit::row_at(&doc, path)
                .map(|r| elem.map(|e| e < r.len()).unwrap_or(true))
                .unwrap_or(false)
        });
    }
    Ok(())
}

/// Everything is saved and loaded again: the document, and the walkers as
/// positions, selections or cell selections.
fn crash(ctx: &mut Ctx, tree: &mut InputTree, doc: &MRow, saved: &mut Vec<(Path, Option<usize>)>, a: u64) -> Result<(), Stop> {
    if treekit::depth(doc) > 16 {
        return Ok(());
    }
    let r = guard(|| -> Result<(InputTree, Vec<(Path, Option<usize>)>), String> {
        let text = serde_json::to_string(&tree.root).map_err(|e| e.to_string())?;
        let root: InputRow = serde_json::from_str(&text).map_err(|e| e.to_string())?;
        let mut back = vec![];
        for (path, elem) in saved.iter() {
            let row = treekit::row_at(doc, path).unwrap();
            let off = (a % (row.len() as u64 + 1)) as usize;
            let focus = InputFocusRow::from_root(&tree.root).walk_down_indices(&real::path_to_real(path));
            let path = match elem {
                Some(e) => {
                    let w = match &row[*e] {
                        MNode::Box(_, w, _) => *w,
                        MNode::Sym(_) => 1,
                    };
                    let focus = focus.child_at(*e).ok_or("no such element")?;
                    let m = InputGridRange::new(focus, GridRectangle::new(0..0, w)).to_minimal();
                    let text = serde_json::to_string(&m).map_err(|e| e.to_string())?;
                    let m: MinimalInputGridRange = serde_json::from_str(&text).map_err(|e| e.to_string())?;
                    back.push((real::path_from_real(&m.row_indices), Some(m.index)));
                    continue;
                }
                None if a % 2 == 0 => {
                    let m = InputRowPosition::new(focus, Offset(off)).to_minimal();
                    let text = serde_json::to_string(&m).map_err(|e| e.to_string())?;
                    let m: MinimalInputRowPosition = serde_json::from_str(&text).map_err(|e| e.to_string())?;
                    m.row_indices
                }
                None => {
                    let m = InputRowRange::new(focus, Offset(off), Offset(row.len())).to_minimal();
                    let text = serde_json::to_string(&m).map_err(|e| e.to_string())?;
                    let m: MinimalInputRowRange = serde_json::from_str(&text).map_err(|e| e.to_string())?;
                    m.row_indices
                }
            };
            back.push((real::path_from_real(&path), None));
        }
        Ok((InputTree::new(root), back))
    });
    match r {
        Ok(Ok((t, back))) => {
            if &back != saved {
                return ctx.fail("place-after-restart", format!("walkers at {saved:?} were saved, {back:?} came back"));
            }
            if real::diff(&t.root, doc).is_some() {
                return Err(Stop::Foreign("the document does not survive a restart".into()));
            }
            *tree = t;
            Ok(())
        }
        Ok(Err(e)) => Err(Stop::Foreign(format!("saving fails: {e}"))),
        Err(p) => ctx.unexpected_panic(&["C21"], "save", &p),
    }
}
