//! The saved (JSON) form, written and read by the model: the stand-in for the
//! front end and for earlier versions, which use the same form.
use crate::model::*;
use serde_json::{json, Value};

fn kind_name(k: Kind) -> &'static str {
    match k {
        Kind::Frac => "Fraction",
        Kind::Root => "Root",
        Kind::Sup => "Sup",
        Kind::Sub => "Sub",
        Kind::Table => "Table",
    }
}

pub fn node(n: &MNode) -> Value {
    match n {
        MNode::Sym(s) => json!({ "Symbol": s }),
        MNode::Box(k, w, cells) => json!({
            "Container": [kind_name(*k), {"values": cells.iter().map(row).collect::<Vec<_>>(), "width": w}]
        }),
    }
}
pub fn row(r: &MRow) -> Value {
    json!({"values": r.iter().map(node).collect::<Vec<_>>()})
}
pub fn path(p: &[(usize, usize)]) -> Value {
    json!(p.iter().map(|(a, b)| json!([a, b])).collect::<Vec<_>>())
}
pub fn position(p: &[(usize, usize)], off: usize) -> Value {
    json!({"row_indices": path(p), "offset": off})
}
pub fn range(p: &[(usize, usize)], start: usize, end: usize) -> Value {
    json!({"row_indices": path(p), "start": start, "end": end})
}
pub fn cells(p: &[(usize, usize)], index: usize, start: usize, end: usize, width: usize) -> Value {
    json!({"row_indices": path(p), "index": index, "range": {"start": start, "end": end, "width": width}})
}
pub fn envelope(nodes: &[MNode]) -> Value {
    json!({"version": 1, "data": nodes.iter().map(node).collect::<Vec<_>>()})
}
