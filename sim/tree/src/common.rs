//! Shared by the executors: resolving plan numbers against the current document.
use kernel::{Rng, Step};
use treekit::{gen, gen::Shape, MEdit, MNode, MRow};

/// Containers nested deeper than this cannot be loaded back from JSON
/// (serde_json stops at 128 levels), so worlds that save stay below it.
pub const MAX_DEPTH: usize = 16;
pub const MAX_SIZE: usize = 700;

fn flatten(nodes: Vec<MNode>, room: usize) -> Vec<MNode> {
    nodes
        .into_iter()
        .map(|n| {
            if matches!(n, MNode::Box(..)) && treekit::depth(&vec![n.clone()]) > room {
                MNode::Sym("d".into())
            } else {
                n
            }
        })
        .collect()
}

/// New content for a row at depth `at_depth`.
pub fn content(seed: u64, shape: &Shape, n: u64, at_depth: usize) -> Vec<MNode> {
    let mut rng = Rng::new(seed ^ 0xC0);
    flatten(
        gen::nodes(&mut rng, shape, n),
        MAX_DEPTH.saturating_sub(at_depth),
    )
}

pub fn cells(seed: u64, shape: &Shape, n: usize, at_depth: usize) -> Vec<MRow> {
    let mut rng = Rng::new(seed ^ 0xCE11);
    (0..n)
        .map(|_| {
            let k = rng.below(3);
            flatten(
                gen::nodes(&mut rng, shape, k),
                MAX_DEPTH.saturating_sub(at_depth + 1),
            )
        })
        .collect()
}

/// Mostly one of the first rows or tables, sometimes any.
pub fn which(rng: &mut Rng) -> u64 {
    if rng.permille(120) {
        rng.below(5000)
    } else {
        rng.below(64)
    }
}
/// Mostly near the beginning of a row, sometimes anywhere.
pub fn place_in(rng: &mut Rng) -> u64 {
    if rng.permille(120) {
        rng.below(5000)
    } else {
        rng.below(24)
    }
}
/// Some runs are much longer than others, or start deeper.
pub fn run_length(rng: &mut Rng, plan: &mut kernel::Plan, deep: u64, low: u64, high: u64) -> u64 {
    if deep > 0 && rng.permille(10) {
        plan.cfg.insert("deep".into(), rng.range(15, deep));
    }
    if rng.permille(4) {
        return rng.range(150, 420);
    }
    rng.range(low, high)
}

/// Documents stop growing, except for those that start huge.
fn room(doc: &MRow) -> bool {
    let n = treekit::size(doc);
    n < MAX_SIZE || (65_000..80_000).contains(&n)
}

/// A row that is too long for 16 bit offsets, and edits near its end.
pub fn huge() -> (kernel::Plan, Vec<Vec<u64>>) {
    let mut plan = kernel::Plan::default();
    for (k, x) in [
        ("alphabet", 0),
        ("boxes", 500),
        ("tables", 300),
        ("max_depth", 2),
        ("max_cells", 4),
        ("doc_n", 66_200),
        ("doc_seed", 5),
        ("replicas", 1),
        ("sector", 512),
    ] {
        plan.cfg.insert(k.into(), x);
    }
    let mut rng = Rng::new(66);
    let mut edits = vec![vec![0, 0, 66_150, 8, 3], vec![0, 0, 65_800, 8, 4]];
    for i in 0..10 {
        // alternately in the huge row and in rows below its end
        let row = if i % 2 == 0 { 0 } else { rng.below(5000) };
        edits.push(vec![
            rng.below(2),
            row,
            rng.range(65_500, 66_150),
            rng.below(8),
            rng.below(1000),
        ]);
    }
    (plan, edits)
}

/// Edits for the plans of `gen::vast`: of the vast table (the last one), of
/// its cells, and of the row around it.
pub fn vast_edits() -> Vec<Vec<u64>> {
    let last = u64::MAX; // which table or row; see `resolve_edit`
    let mut edits = vec![];
    for kind in [4, 5, 2, 3, 4, 5, 2, 3] {
        edits.push(vec![kind, last, 65_700 - kind, 1 + kind % 2, kind]);
    }
    for row in [0, 1, 300, 65_540, 65_700] {
        edits.push(vec![0, row, 0, 3, row]);
        edits.push(vec![1, row, 0, 1, row]);
    }
    edits
}

/// Number of arguments of one edit.
pub const EDIT_ARGS: usize = 5;

/// Draws the numbers that describe one edit. `grid` is the chance (per mille)
/// of a table edit.
pub fn draw_edit(rng: &mut Rng, grid: u64, out: &mut Vec<u64>) {
    let kind = if rng.permille(grid) {
        2 + rng.below(4)
    } else {
        rng.below(2)
    };
    out.push(kind);
    out.push(which(rng)); // which row / table
    out.push(match rng.below(4) {
        0 => 0,
        _ => place_in(rng),
    }); // where in it
    out.push(if rng.permille(15) {
        rng.range(10, 300)
    } else {
        rng.skewed(6)
    }); // how many
    out.push(rng.below(1 << 20)); // content
}

/// Turns numbers into an edit that fits `doc` (or None when there is nothing
/// to act on, e.g. no table).
pub fn resolve_edit(doc: &MRow, a: &[u64], shape: &Shape) -> Option<MEdit> {
    let g = |i: usize| a.get(i).copied().unwrap_or(0);
    let kind = g(0) % 6;
    if kind < 2 {
        let rows = treekit::rows(doc);
        let path = rows[(g(1) % rows.len() as u64) as usize].clone();
        let row = treekit::row_at(doc, &path).unwrap();
        let insert = kind == 0 && room(doc);
        if insert {
            let off = (g(2) % (row.len() as u64 + 1)) as usize;
            let n = if g(3) > 9 { g(3) } else { g(3) % 9 };
            let values = content(g(4), shape, n, path.len());
            return Some(MEdit::Row {
                insert: true,
                path,
                off,
                values,
            });
        }
        let off = (g(2) % (row.len() as u64 + 1)) as usize;
        let n = (g(3) as usize).min(row.len() - off);
        let values = row[off..off + n].to_vec();
        return Some(MEdit::Row {
            insert: false,
            path,
            off,
            values,
        });
    }
    let tables = treekit::tables(doc);
    if tables.is_empty() {
        return None;
    }
    let which = match g(1) {
        u64::MAX => tables.len() - 1,
        n => (n % tables.len() as u64) as usize,
    };
    let (path, idx, w, h) = tables[which].clone();
    let row = treekit::row_at(doc, &path).unwrap();
    let MNode::Box(_, _, old) = &row[idx] else {
        unreachable!()
    };
    let cols = kind >= 4;
    let insert = kind % 2 == 0 && room(doc) && (w * h < 340 || (65_000..68_000).contains(&(w * h)));
    let along = if cols { w } else { h };
    if insert {
        let at = (g(2) % (along as u64 + 1)) as usize;
        let n = 1 + (g(3) % 3) as usize;
        let (bw, bh) = if cols { (n, h) } else { (w, n) };
        return Some(MEdit::Grid {
            insert: true,
            path: path.clone(),
            idx,
            cols,
            at,
            width: bw,
            cells: cells(g(4), shape, bw * bh, path.len()),
        });
    }
    // deleting: keep at least one column; all rows may go
    let at = (g(2) % (along as u64 + 1)) as usize;
    let mut n = (1 + g(3) as usize).min(along - at);
    if cols && n == w {
        n -= 1;
    }
    if n == 0 {
        return None;
    }
    let mut block = vec![];
    for y in 0..h {
        for x in 0..w {
            let inside = if cols {
                x >= at && x < at + n
            } else {
                y >= at && y < at + n
            };
            if inside {
                block.push(old[y * w + x].clone());
            }
        }
    }
    Some(MEdit::Grid {
        insert: false,
        path,
        idx,
        cols,
        at,
        width: if cols { n } else { w },
        cells: block,
    })
}

/// The edits encoded in a step from argument `from` on, resolved one after the
/// other against the evolving document.
pub fn resolve_batch(doc: &MRow, s: &Step, from: usize, shape: &Shape) -> Vec<MEdit> {
    let mut doc = doc.clone();
    let mut out = vec![];
    let args = s.a.get(from..).unwrap_or(&[]);
    for a in args.chunks(EDIT_ARGS) {
        if let Some(e) = resolve_edit(&doc, a, shape) {
            if treekit::apply(&mut doc, &e).is_ok() {
                out.push(e);
            }
        }
    }
    out
}

pub fn place(doc: &MRow, n: u64) -> (treekit::Path, usize) {
    let p = treekit::places(doc);
    p[(n % p.len() as u64) as usize].clone()
}
