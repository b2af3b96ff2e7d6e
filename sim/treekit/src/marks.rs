//! Oracle for tracked positions: a skeleton of the document whose gaps carry
//! markers. Edits move markers the way a person would describe it; no index
//! arithmetic on paths is involved (paths are only read off at the end).
use crate::model::*;

#[derive(Clone, Debug)]
pub struct KRow {
    nodes: Vec<KNode>,
    /// marks[g] are the markers in the gap before element g (nodes.len() + 1 gaps)
    marks: Vec<Vec<u32>>,
}

#[derive(Clone, Debug)]
enum KNode {
    Leaf,
    Box(usize, Vec<KRow>),
}

fn skeleton(row: &MRow) -> KRow {
    KRow {
        nodes: row.iter().map(skeleton_node).collect(),
        marks: vec![vec![]; row.len() + 1],
    }
}
fn skeleton_node(n: &MNode) -> KNode {
    match n {
        MNode::Sym(_) => KNode::Leaf,
        MNode::Box(_, w, cells) => KNode::Box(*w, cells.iter().map(skeleton).collect()),
    }
}

fn collect(row: &KRow, out: &mut Vec<u32>) {
    for m in &row.marks {
        out.extend(m);
    }
    for n in &row.nodes {
        if let KNode::Box(_, cells) = n {
            for c in cells {
                collect(c, out);
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Gravity {
    /// stays next to its left neighbour when content is inserted here
    Left,
    /// stays next to its right neighbour
    Right,
}

#[derive(Clone, Debug)]
pub struct Marked {
    root: KRow,
    /// Markers whose place is not defined (they were in a deleted table cell).
    pub undefined: Vec<u32>,
}

impl Marked {
    pub fn new(doc: &MRow) -> Self {
        Marked {
            root: skeleton(doc),
            undefined: vec![],
        }
    }
    fn row_mut(&mut self, path: &[(usize, usize)]) -> &mut KRow {
        let mut row = &mut self.root;
        for (i, c) in path {
            match &mut row.nodes[*i] {
                KNode::Box(_, cells) => row = &mut cells[*c],
                KNode::Leaf => panic!("marker oracle: path through a symbol"),
            }
        }
        row
    }
    pub fn place(&mut self, id: u32, path: &[(usize, usize)], off: usize) {
        self.row_mut(path).marks[off].push(id);
    }
    pub fn find(&self, id: u32) -> Option<(Path, usize)> {
        fn go(row: &KRow, id: u32, at: &mut Path) -> Option<(Path, usize)> {
            for g in 0..row.marks.len() {
                if row.marks[g].contains(&id) {
                    return Some((at.clone(), g));
                }
                if let Some(KNode::Box(_, cells)) = row.nodes.get(g) {
                    for (c, r) in cells.iter().enumerate() {
                        at.push((g, c));
                        let f = go(r, id, at);
                        if f.is_some() {
                            return f;
                        }
                        at.pop();
                    }
                }
            }
            None
        }
        go(&self.root, id, &mut vec![])
    }
    /// Applies an edit that fits. `gravity` decides what happens to a marker
    /// that sits exactly where content is inserted.
    pub fn apply(&mut self, e: &MEdit, gravity: impl Fn(u32) -> Gravity) {
        match e {
            MEdit::Row {
                insert: true,
                path,
                off,
                values,
            } => {
                if values.is_empty() {
                    return;
                }
                let row = self.row_mut(path);
                let here = std::mem::take(&mut row.marks[*off]);
                let (l, r): (Vec<u32>, Vec<u32>) =
                    here.into_iter().partition(|m| gravity(*m) == Gravity::Left);
                let new: Vec<KNode> = values.iter().map(skeleton_node).collect();
                let n = new.len();
                row.nodes.splice(*off..*off, new);
                // gap `off` keeps the left markers, then n-1 fresh gaps, then the right markers
                row.marks[*off] = l;
                let mut fresh: Vec<Vec<u32>> = vec![vec![]; n - 1];
                fresh.push(r);
                row.marks.splice(*off + 1..*off + 1, fresh);
            }
            MEdit::Row {
                insert: false,
                path,
                off,
                values,
            } => {
                let n = values.len();
                if n == 0 {
                    return;
                }
                let row = self.row_mut(path);
                let mut all = vec![];
                for g in *off..=*off + n {
                    all.append(&mut row.marks[g]);
                }
                for node in row.nodes.drain(*off..*off + n) {
                    if let KNode::Box(_, cells) = node {
                        for c in &cells {
                            collect(c, &mut all);
                        }
                    }
                }
                row.marks.splice(*off..=*off + n, [all]);
            }
            MEdit::Grid {
                insert,
                path,
                idx,
                cols,
                at,
                width,
                cells,
            } => {
                let mut lost = vec![];
                let row = self.row_mut(path);
                let KNode::Box(w, old) = &mut row.nodes[*idx] else {
                    panic!("marker oracle: not a table");
                };
                let mut table: Vec<Vec<KRow>> = old.chunks(*w).map(|c| c.to_vec()).collect();
                let block: Vec<Vec<KRow>> = cells
                    .chunks(*width)
                    .map(|c| c.iter().map(skeleton).collect())
                    .collect();
                if *cols {
                    for (r, b) in table.iter_mut().zip(block) {
                        if *insert {
                            r.splice(*at..*at, b);
                        } else {
                            for c in r.drain(*at..*at + *width) {
                                collect(&c, &mut lost);
                            }
                        }
                    }
                    *w = if *insert { *w + *width } else { *w - *width };
                } else if *insert {
                    table.splice(*at..*at, block);
                } else {
                    for r in table.drain(*at..*at + block.len()) {
                        for c in &r {
                            collect(c, &mut lost);
                        }
                    }
                }
                *old = table.into_iter().flatten().collect();
                self.undefined.extend(lost);
            }
        }
    }
}
