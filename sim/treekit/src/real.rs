//! Conversions between the model and the real input_tree types.
use crate::model::*;
use input_tree::{
    editing::{BasicEdit, EditType, GridEdit, RowEdit},
    focus::{MinimalInputRowPosition, MinimalInputRowRange},
    grid::{Grid, GridDirection, GridVec},
    node::{InputNode, InputNodeVariant},
    row::{ElementIndices, InputRow, Offset, RowIndex, RowIndices},
};

pub fn variant(k: Kind) -> InputNodeVariant {
    match k {
        Kind::Frac => InputNodeVariant::Fraction,
        Kind::Root => InputNodeVariant::Root,
        Kind::Sup => InputNodeVariant::Sup,
        Kind::Sub => InputNodeVariant::Sub,
        Kind::Table => InputNodeVariant::Table,
    }
}

pub fn kind(v: InputNodeVariant) -> Kind {
    match v {
        InputNodeVariant::Fraction => Kind::Frac,
        InputNodeVariant::Root => Kind::Root,
        InputNodeVariant::Sup => Kind::Sup,
        InputNodeVariant::Sub => Kind::Sub,
        InputNodeVariant::Table => Kind::Table,
    }
}

pub fn node_to_real(n: &MNode) -> InputNode {
    match n {
        MNode::Sym(s) => InputNode::symbol(s.clone()),
        MNode::Box(k, w, cells) => {
            let mut cells: Vec<InputRow> = cells.iter().map(row_to_real).collect();
            match (k, *w, cells.len()) {
                // as the program makes them
                (Kind::Frac, 1, 2) => InputNode::fraction(cells.try_into().unwrap()),
                (Kind::Root, 2, 2) => InputNode::root(cells.try_into().unwrap()),
                (Kind::Sup, 1, 1) => InputNode::sup(cells.remove(0)),
                (Kind::Sub, 1, 1) => InputNode::sub(cells.remove(0)),
                (Kind::Table, w, _) => InputNode::table(cells, w),
                // what only damaged data holds
                (_, w, _) => InputNode::Container(
                    variant(*k),
                    GridVec::from_one_dimensional(cells, w),
                ),
            }
        }
    }
}

pub fn nodes_to_real(ns: &[MNode]) -> Vec<InputNode> {
    ns.iter().map(node_to_real).collect()
}

pub fn row_to_real(r: &MRow) -> InputRow {
    InputRow::new(nodes_to_real(r))
}

/// Reads a real row back into the model. Errors when the real value is not
/// well-formed (a grid whose cells do not fill its width).
pub fn row_from_real(r: &InputRow) -> Result<MRow, String> {
    r.values.iter().map(node_from_real).collect()
}

pub fn nodes_from_real(r: &[InputNode]) -> Result<MRow, String> {
    r.iter().map(node_from_real).collect()
}

pub fn node_from_real(n: &InputNode) -> Result<MNode, String> {
    Ok(match n {
        InputNode::Symbol(s) => MNode::Sym(s.clone()),
        InputNode::Container(v, grid) => {
            let cells: Vec<MRow> = grid
                .values()
                .map(row_from_real)
                .collect::<Result<_, _>>()?;
            let (w, h) = grid.size();
            if w == 0 || w * h != cells.len() {
                return Err(format!(
                    "a grid of {} cells says it is {} x {}",
                    cells.len(),
                    w,
                    h
                ));
            }
            MNode::Box(kind(*v), w, cells)
        }
    })
}

/// Where the real row differs from the model, if it does.
pub fn diff(real: &InputRow, model: &MRow) -> Option<String> {
    diff_nodes(&real.values, model, &mut vec![])
}

pub fn diff_nodes(real: &[InputNode], model: &[MNode], at: &mut Path) -> Option<String> {
    if real.len() != model.len() {
        return Some(format!(
            "row {:?} has {} elements, expected {}",
            at,
            real.len(),
            model.len()
        ));
    }
    for (i, (r, m)) in real.iter().zip(model).enumerate() {
        match (r, m) {
            (InputNode::Symbol(a), MNode::Sym(b)) => {
                if a != b {
                    return Some(format!(
                        "element {i} of row {at:?} is {a:?}, expected {b:?}"
                    ));
                }
            }
            (InputNode::Container(v, grid), MNode::Box(k, w, cells)) => {
                if kind(*v) != *k {
                    return Some(format!(
                        "element {i} of row {at:?} is a {v:?}, expected {k:?}"
                    ));
                }
                let n = grid.values().count();
                if n != cells.len() || grid.width() != *w {
                    return Some(format!(
                        "element {i} of row {at:?} has {n} cells in {} columns, expected {} in {}",
                        grid.width(),
                        cells.len(),
                        w
                    ));
                }
                for (c, (a, b)) in grid.values().zip(cells).enumerate() {
                    at.push((i, c));
                    if let Some(d) = diff_nodes(&a.values, b, at) {
                        return Some(d);
                    }
                    at.pop();
                }
            }
            _ => {
                return Some(format!(
                    "element {i} of row {at:?} is {}, expected {}",
                    if matches!(r, InputNode::Symbol(_)) {
                        "a symbol"
                    } else {
                        "a container"
                    },
                    if matches!(m, MNode::Sym(_)) {
                        "a symbol"
                    } else {
                        "a container"
                    },
                ))
            }
        }
    }
    None
}

pub fn path_to_real(p: &[(usize, usize)]) -> RowIndices {
    RowIndices::new(p.iter().map(|(a, b)| RowIndex(*a, *b)).collect())
}

pub fn path_from_real(p: &RowIndices) -> Path {
    p.iter().map(|r| (r.0, r.1)).collect()
}

pub fn position(p: &[(usize, usize)], off: usize) -> MinimalInputRowPosition {
    MinimalInputRowPosition {
        row_indices: path_to_real(p),
        offset: Offset(off),
    }
}

pub fn range(p: &[(usize, usize)], start: usize, end: usize) -> MinimalInputRowRange {
    MinimalInputRowRange {
        row_indices: path_to_real(p),
        start: Offset(start),
        end: Offset(end),
    }
}

pub fn edit_to_real(e: &MEdit) -> BasicEdit {
    match e {
        MEdit::Row {
            insert,
            path,
            off,
            values,
        } => BasicEdit::Row(RowEdit {
            edit_type: if *insert {
                EditType::Insert
            } else {
                EditType::Delete
            },
            position: position(path, *off),
            values: nodes_to_real(values),
        }),
        MEdit::Grid {
            insert,
            path,
            idx,
            cols,
            at,
            width,
            cells,
        } => BasicEdit::Grid(GridEdit {
            edit_type: if *insert {
                EditType::Insert
            } else {
                EditType::Delete
            },
            element_indices: ElementIndices {
                row_indices: path_to_real(path),
                index: *idx,
            },
            direction: if *cols {
                GridDirection::Column
            } else {
                GridDirection::Row
            },
            row_or_column: Offset(*at),
            values: GridVec::from_one_dimensional(
                cells.iter().map(row_to_real).collect(),
                *width,
            ),
        }),
    }
}

/// Reads a real edit into the model.
pub fn edit_from_real(e: &BasicEdit) -> Result<MEdit, String> {
    Ok(match e {
        BasicEdit::Row(r) => MEdit::Row {
            insert: r.edit_type == EditType::Insert,
            path: path_from_real(&r.position.row_indices),
            off: r.position.offset.0,
            values: nodes_from_real(&r.values)?,
        },
        BasicEdit::Grid(g) => MEdit::Grid {
            insert: g.edit_type == EditType::Insert,
            path: path_from_real(&g.element_indices.row_indices),
            idx: g.element_indices.index,
            cols: g.direction == GridDirection::Column,
            at: g.row_or_column.0,
            width: g.values.width(),
            cells: g
                .values
                .values()
                .map(row_from_real)
                .collect::<Result<_, _>>()?,
        },
    })
}
