//! Content generators. Everything is a function of the numbers in a plan step.
use crate::model::*;
use kernel::Rng;

#[derive(Clone, Copy, Debug)]
pub struct Shape {
    /// 0 letters and digits, 1 text with special characters, 2 exotic unicode,
    /// 3 letters of autocomplete rules, 4 a mix of everything
    pub alphabet: u64,
    /// chance (per mille) that a node is a container
    pub boxes: u64,
    /// chance (per mille) that a container is a table
    pub tables: u64,
    pub max_depth: u64,
    pub max_cells: u64,
}

const PLAIN: &[&str] = &[
    "a", "b", "c", "x", "y", "z", "0", "1", "2", "+", "-", "=", ",", ".",
];
const SPECIAL: &[&str] = &[
    "\"", "\\", "(", ")", " ", "\n", "\t", "\u{0}", "'", "\\\"", "\"\"", "row", "(row)", "1x1",
    "/", "^", "_", "|", "{", "}", "[", "]", ":", "\u{7f}", "\\\\", "\" \"", ")\"",
    "\r\n", "\r", "\u{1b}", "\\n", "\\u0041", "\\t", "  ", " a", "a ", "&lt;", "<", "null", "%20", "{}",
];
const EXOTIC: &[&str] = &[
    "é", "e\u{301}", "∑", "∞", "∫", "≥", "𝕏", "👩‍👩‍👧", "🏳️‍🌈", "א", "ا", "\u{feff}", "\u{200d}",
    "ß", "ﬃ", "한", "日", "\u{e000}", "\u{10ffff}", "\u{2028}", "ñ", "Ω", "ν",
    "\u{85}", "\u{a0}", "\u{212b}", "\u{1100}\u{1161}", "\u{301}", "ｘ", "İ", "ſ", "\u{ad}", "\u{202e}",
    "\u{d7ff}", "\u{ffff}", "\u{fffd}", "\u{10000}", "²",
];
const RULES: &[&str] = &[
    "l", "i", "m", "s", "u", "p", "n", "f", "t", "q", "r", "v", "e", "c", "o", "a", "x", ">", "<",
    "=", "g", "y", " ",
];

pub fn symbol(rng: &mut Rng, alphabet: u64) -> String {
    let set = match alphabet {
        0 => PLAIN,
        1 => match rng.below(3) {
            0 => PLAIN,
            _ => SPECIAL,
        },
        2 => match rng.below(3) {
            0 => PLAIN,
            _ => EXOTIC,
        },
        3 => RULES,
        _ => match rng.below(4) {
            0 => PLAIN,
            1 => SPECIAL,
            2 => EXOTIC,
            _ => RULES,
        },
    };
    let s = rng.pick(set).to_string();
    if alphabet >= 4 && rng.permille(30) {
        return String::new();
    }
    if alphabet >= 4 && rng.permille(40) {
        let n = rng.range(1, 4);
        return (0..n)
            .map(|_| match rng.below(4) {
                0 => *rng.pick(&['"', '\\', ' ', '(', ')', '\n', '\r', 'u', 'n', '0', '/']),
                1 => rng.below(0x80) as u8 as char,
                2 => char::from_u32(rng.below(0x800) as u32).unwrap_or('a'),
                _ => char::from_u32(rng.below(0x110000) as u32).unwrap_or('b'),
            })
            .collect();
    }
    if alphabet >= 2 && rng.permille(4) {
        return s.repeat(rng.range(2, 300) as usize);
    }
    s
}

pub fn nodes(rng: &mut Rng, shape: &Shape, n: u64) -> Vec<MNode> {
    let mut left = 60usize;
    (0..n).map(|_| node(rng, shape, shape.max_depth, &mut left)).collect()
}

fn node(rng: &mut Rng, shape: &Shape, depth: u64, left: &mut usize) -> MNode {
    if depth == 0 || *left == 0 || !rng.permille(shape.boxes) {
        return MNode::Sym(symbol(rng, shape.alphabet));
    }
    *left -= 1;
    let row = |rng: &mut Rng, left: &mut usize| -> MRow {
        let n = rng.below(4);
        (0..n).map(|_| node(rng, shape, depth - 1, left)).collect()
    };
    if rng.permille(shape.tables) {
        if rng.permille(8) && *left > 50 {
            // a table with many cells
            let w = *rng.pick(&[1usize, 2, 16, 40, 258, 300]);
            let h = 300 / w;
            *left = 0;
            let cells = (0..w * h).map(|_| row(rng, left)).collect();
            return MNode::Box(Kind::Table, w, cells);
        }
        let w = 1 + rng.below(shape.max_cells.max(1)) as usize;
        let h = 1 + rng.below((shape.max_cells.max(1) / w as u64).max(1) + 1) as usize;
        let cells = (0..w * h).map(|_| row(rng, left)).collect();
        return MNode::Box(Kind::Table, w, cells);
    }
    match rng.below(4) {
        0 => MNode::Box(Kind::Frac, 1, vec![row(rng, left), row(rng, left)]),
        1 => MNode::Box(Kind::Root, 2, vec![row(rng, left), row(rng, left)]),
        2 => MNode::Box(Kind::Sup, 1, vec![row(rng, left)]),
        _ => MNode::Box(Kind::Sub, 1, vec![row(rng, left)]),
    }
}

/// A document. `deep` > 0 adds a chain of nested containers of that depth.
pub fn document(seed: u64, shape: &Shape, n: u64, deep: u64) -> MRow {
    let mut rng = Rng::new(seed ^ 0xD0C);
    let mut row = nodes(&mut rng, shape, n);
    if deep > 0 {
        let mut inner: MRow = nodes(&mut rng, shape, 2);
        for _ in 0..deep {
            let mut cells = vec![inner];
            let k = rng.below(5);
            let n = match k {
                0 => {
                    let extra = nodes(&mut rng, &Shape { boxes: 0, ..*shape }, 1);
                    let pos = rng.usize(2);
                    cells.insert(pos, extra);
                    MNode::Box(Kind::Frac, 1, cells)
                }
                1 => {
                    cells.insert(rng.usize(2), vec![]);
                    MNode::Box(Kind::Root, 2, cells)
                }
                2 => MNode::Box(Kind::Sup, 1, cells),
                3 => MNode::Box(Kind::Sub, 1, cells),
                _ => {
                    let w = 1 + rng.usize(3);
                    let total = w * (1 + rng.usize(2));
                    while cells.len() < total {
                        let at = rng.usize(cells.len() + 1);
                        cells.insert(at, vec![]);
                    }
                    MNode::Box(Kind::Table, w, cells)
                }
            };
            let mut outer = nodes(&mut rng, &Shape { boxes: 0, ..*shape }, 1);
            let at = rng.usize(outer.len() + 1);
            outer.insert(at, n);
            inner = outer;
        }
        let at = rng.usize(row.len() + 1);
        row.splice(at..at, inner);
    }
    row
}

pub fn shape_from(plan: &kernel::Plan) -> Shape {
    Shape {
        alphabet: plan.cfg("alphabet"),
        boxes: plan.cfg("boxes"),
        tables: plan.cfg("tables"),
        max_depth: plan.cfg("max_depth"),
        max_cells: plan.cfg("max_cells"),
    }
}

/// Swarm-style configuration of document shapes.
pub fn swarm_shape(rng: &mut Rng, plan: &mut kernel::Plan) {
    let alphabet = [0, 0, 1, 2, 3, 4][rng.usize(6)];
    let boxes = [0, 100, 250, 400, 600][rng.usize(5)];
    let tables = [0, 250, 500, 900][rng.usize(4)];
    plan.cfg.insert("alphabet".into(), alphabet);
    plan.cfg.insert("boxes".into(), boxes);
    plan.cfg.insert("tables".into(), tables);
    plan.cfg.insert("max_depth".into(), 1 + rng.below(5));
    plan.cfg.insert("max_cells".into(), *rng.pick(&[1, 2, 4, 6, 9]));
    let n = if rng.permille(12) {
        rng.range(250, 400)
    } else {
        *rng.pick(&[0, 1, 2, 3, 5, 8, 12])
    };
    plan.cfg.insert("doc_n".into(), n);
    plan.cfg.insert("doc_seed".into(), rng.next() >> 12);
    let deep = if rng.permille(120) { rng.range(3, 14) } else { 0 };
    plan.cfg.insert("deep".into(), deep);
}

pub fn initial_document(plan: &kernel::Plan) -> MRow {
    let mut doc = document(
        plan.cfg("doc_seed"),
        &shape_from(plan),
        plan.cfg("doc_n"),
        plan.cfg("deep"),
    );
    let sym = |i: usize| MNode::Sym(PLAIN[i % PLAIN.len()].into());
    let table = |w: usize, h: usize| {
        let cell = |i: usize| if i % 97 == 5 { vec![sym(i), sym(i + 1)] } else { vec![] };
        MNode::Box(Kind::Table, w, (0..w * h).map(cell).collect())
    };
    // numbers beyond 16 bits, and a very long symbol
    match plan.cfg("vast") {
        1 => doc.push(table(VAST, 1)),
        2 => doc.push(table(1, VAST)),
        3 => doc.push(table(300, 220)),
        4 => doc.insert(0, MNode::Sym("\u{e9}\"\\x".repeat(20_000))),
        _ => {}
    }
    doc
}

pub const VAST: usize = 65_800;

/// Plans' configurations with extremely large parts.
pub fn vast() -> Vec<(&'static str, kernel::Plan)> {
    let names = ["more than 65536 columns", "more than 65536 rows", "more than 65536 cells", "a symbol of 100000 bytes"];
    names
        .into_iter()
        .enumerate()
        .map(|(i, name)| {
            let mut plan = kernel::Plan::default();
            for (k, x) in [
                ("alphabet", 0),
                ("boxes", 500),
                ("tables", 300),
                ("max_depth", 1),
                ("max_cells", 4),
                ("doc_n", 2),
                ("doc_seed", 7),
                ("replicas", 1),
                ("sector", 512),
                ("vast", 1 + i as u64),
            ] {
                plan.cfg.insert(k.into(), x);
            }
            (name, plan)
        })
        .collect()
}
