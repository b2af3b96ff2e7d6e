//! A small executable model of documents and edits. Deliberately naive: owned
//! vectors, no sharing with the code under test.
use kernel::rng::{hash_str, mix};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Frac,
    Root,
    Sup,
    Sub,
    Table,
}

pub const KINDS: [Kind; 5] = [Kind::Frac, Kind::Root, Kind::Sup, Kind::Sub, Kind::Table];

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum MNode {
    Sym(String),
    /// kind, number of columns, cells row by row
    Box(Kind, usize, Vec<MRow>),
}

pub type MRow = Vec<MNode>;
/// Path to a row: (index of the container in its row, cell number)
pub type Path = Vec<(usize, usize)>;

#[derive(Clone, Debug, PartialEq)]
pub enum MEdit {
    Row {
        insert: bool,
        path: Path,
        off: usize,
        values: Vec<MNode>,
    },
    Grid {
        insert: bool,
        path: Path,
        idx: usize,
        /// columns (true) or rows (false) of the table
        cols: bool,
        at: usize,
        /// width of the block of cells
        width: usize,
        cells: Vec<MRow>,
    },
}

impl MEdit {
    pub fn inverse(&self) -> MEdit {
        let mut e = self.clone();
        match &mut e {
            MEdit::Row { insert, .. } | MEdit::Grid { insert, .. } => *insert = !*insert,
        }
        e
    }
    pub fn path(&self) -> &Path {
        match self {
            MEdit::Row { path, .. } | MEdit::Grid { path, .. } => path,
        }
    }
    pub fn is_grid(&self) -> bool {
        matches!(self, MEdit::Grid { .. })
    }
    pub fn brief(&self) -> String {
        match self {
            MEdit::Row {
                insert,
                path,
                off,
                values,
            } => format!(
                "{} {} node(s) at {:?}+{}",
                if *insert { "insert" } else { "delete" },
                values.len(),
                path,
                off
            ),
            MEdit::Grid {
                insert,
                path,
                idx,
                cols,
                at,
                width,
                cells,
            } => format!(
                "{} {} of {} cells (width {}) at {} in table {:?}#{}",
                if *insert { "insert" } else { "delete" },
                if *cols { "columns" } else { "rows" },
                cells.len(),
                width,
                at,
                path,
                idx
            ),
        }
    }
}

pub fn row_at<'a>(root: &'a MRow, path: &[(usize, usize)]) -> Option<&'a MRow> {
    let mut row = root;
    for (i, c) in path {
        match row.get(*i)? {
            MNode::Box(_, _, cells) => row = cells.get(*c)?,
            MNode::Sym(_) => return None,
        }
    }
    Some(row)
}

pub fn row_at_mut<'a>(root: &'a mut MRow, path: &[(usize, usize)]) -> Option<&'a mut MRow> {
    let mut row = root;
    for (i, c) in path {
        match row.get_mut(*i)? {
            MNode::Box(_, _, cells) => row = cells.get_mut(*c)?,
            MNode::Sym(_) => return None,
        }
    }
    Some(row)
}

/// Applies an edit, or says why it does not fit (leaving the document alone).
pub fn apply(root: &mut MRow, e: &MEdit) -> Result<(), &'static str> {
    match e {
        MEdit::Row {
            insert,
            path,
            off,
            values,
        } => {
            let row = row_at_mut(root, path).ok_or("no such row")?;
            if *insert {
                if *off > row.len() {
                    return Err("offset beyond the row");
                }
                let tail = row.split_off(*off);
                row.extend(values.iter().cloned());
                row.extend(tail);
            } else {
                if off
                    .checked_add(values.len())
                    .map(|end| end > row.len())
                    .unwrap_or(true)
                {
                    return Err("range beyond the row");
                }
                let tail = row.split_off(*off + values.len());
                row.truncate(*off);
                row.extend(tail);
            }
            Ok(())
        }
        MEdit::Grid {
            insert,
            path,
            idx,
            cols,
            at,
            width,
            cells,
        } => {
            let row = row_at_mut(root, path).ok_or("no such row")?;
            let node = row.get_mut(*idx).ok_or("no such element")?;
            let MNode::Box(Kind::Table, w, old) = node else {
                return Err("not a table");
            };
            if *width == 0 || cells.len() % *width != 0 {
                return Err("bad block");
            }
            let block_h = cells.len() / *width;
            let h = old.len() / *w;
            // a list of table rows, each a list of cells
            let mut table: Vec<Vec<MRow>> = old.chunks(*w).map(|c| c.to_vec()).collect();
            let block: Vec<Vec<MRow>> = cells.chunks(*width).map(|c| c.to_vec()).collect();
            if !*cols {
                if *width != *w {
                    return Err("block width");
                }
                if *insert {
                    if *at > h {
                        return Err("row beyond the table");
                    }
                    for (k, r) in block.into_iter().enumerate() {
                        table.insert(*at + k, r);
                    }
                } else {
                    if at.checked_add(block_h).map(|e| e > h).unwrap_or(true) {
                        return Err("rows beyond the table");
                    }
                    for _ in 0..block_h {
                        table.remove(*at);
                    }
                }
                *old = table.into_iter().flatten().collect();
            } else {
                if block_h != h {
                    return Err("block height");
                }
                if *insert {
                    if *at > *w {
                        return Err("column beyond the table");
                    }
                    for (r, b) in table.iter_mut().zip(block) {
                        for (k, c) in b.into_iter().enumerate() {
                            r.insert(*at + k, c);
                        }
                    }
                    *w += *width;
                } else {
                    if at.checked_add(*width).map(|e| e > *w).unwrap_or(true) {
                        return Err("columns beyond the table");
                    }
                    if *width == *w {
                        return Err("table without columns");
                    }
                    for r in table.iter_mut() {
                        for _ in 0..*width {
                            r.remove(*at);
                        }
                    }
                    *w -= *width;
                }
                *old = table.into_iter().flatten().collect();
            }
            Ok(())
        }
    }
}

/// All rows in document order (pre-order), as paths.
pub fn rows(root: &MRow) -> Vec<Path> {
    fn go(row: &MRow, at: &mut Path, out: &mut Vec<Path>) {
        out.push(at.clone());
        for (i, n) in row.iter().enumerate() {
            if let MNode::Box(_, _, cells) = n {
                for (c, r) in cells.iter().enumerate() {
                    at.push((i, c));
                    go(r, at, out);
                    at.pop();
                }
            }
        }
    }
    let mut out = vec![];
    go(root, &mut vec![], &mut out);
    out
}

/// All caret places in document order.
pub fn places(root: &MRow) -> Vec<(Path, usize)> {
    fn go(row: &MRow, at: &mut Path, out: &mut Vec<(Path, usize)>) {
        out.push((at.clone(), 0));
        for (i, n) in row.iter().enumerate() {
            if let MNode::Box(_, _, cells) = n {
                for (c, r) in cells.iter().enumerate() {
                    at.push((i, c));
                    go(r, at, out);
                    at.pop();
                }
            }
            out.push((at.clone(), i + 1));
        }
    }
    let mut out = vec![];
    go(root, &mut vec![], &mut out);
    out
}

/// All tables: path of the row, index in it, columns, rows.
pub fn tables(root: &MRow) -> Vec<(Path, usize, usize, usize)> {
    let mut out = vec![];
    for p in rows(root) {
        let r = row_at(root, &p).unwrap();
        for (i, n) in r.iter().enumerate() {
            if let MNode::Box(Kind::Table, w, cells) = n {
                out.push((p.clone(), i, *w, cells.len() / *w));
            }
        }
    }
    out
}

/// All containers: path of the row, index in it.
pub fn boxes(root: &MRow) -> Vec<(Path, usize)> {
    let mut out = vec![];
    for p in rows(root) {
        let r = row_at(root, &p).unwrap();
        for (i, n) in r.iter().enumerate() {
            if let MNode::Box(..) = n {
                out.push((p.clone(), i));
            }
        }
    }
    out
}

pub fn size(row: &MRow) -> usize {
    row.iter()
        .map(|n| match n {
            MNode::Sym(_) => 1,
            MNode::Box(_, _, cells) => 1 + cells.iter().map(|r| 1 + size(r)).sum::<usize>(),
        })
        .sum()
}

pub fn depth(row: &MRow) -> usize {
    row.iter()
        .map(|n| match n {
            MNode::Sym(_) => 0,
            MNode::Box(_, _, cells) => 1 + cells.iter().map(depth).max().unwrap_or(0),
        })
        .max()
        .unwrap_or(0)
}

pub fn hash_row(row: &MRow) -> u64 {
    let mut h = 7u64;
    for n in row {
        match n {
            MNode::Sym(s) => h = mix(&[h, 1, hash_str(s)]),
            MNode::Box(k, w, cells) => {
                h = mix(&[h, 2, *k as u64, *w as u64, cells.len() as u64]);
                for c in cells {
                    h = mix(&[h, 3, hash_row(c)]);
                }
            }
        }
    }
    h
}

pub fn show(row: &MRow) -> String {
    fn go(row: &MRow, out: &mut String) {
        out.push('[');
        for (i, n) in row.iter().enumerate() {
            if i > 0 {
                out.push(' ');
            }
            match n {
                MNode::Sym(s) => out.push_str(&format!("{s:?}")),
                MNode::Box(k, w, cells) => {
                    out.push_str(&format!("{k:?}/{w}("));
                    for c in cells {
                        go(c, out);
                    }
                    out.push(')');
                }
            }
        }
        out.push(']');
    }
    let mut s = String::new();
    go(row, &mut s);
    if s.len() > 1500 {
        let mut cut = 1500;
        while !s.is_char_boundary(cut) {
            cut -= 1;
        }
        s.truncate(cut);
        s.push('…');
    }
    s
}
