//! The simulated system clipboard and what can go wrong with it.
use serde_json::Value;
use treekit::{Kind, MNode, MRow};

/// Reads clipboard text independently. None when it is not the usual form.
pub fn decode(text: &str) -> Option<Vec<MNode>> {
    let v: Value = serde_json::from_str(text).ok()?;
    let o = v.as_object()?;
    o.get("version")?.as_u64()?;
    nodes(o.get("data")?)
}

fn nodes(v: &Value) -> Option<Vec<MNode>> {
    v.as_array()?.iter().map(node).collect()
}

fn node(v: &Value) -> Option<MNode> {
    let o = v.as_object()?;
    if o.len() != 1 {
        return None;
    }
    if let Some(s) = o.get("Symbol") {
        return Some(MNode::Sym(s.as_str()?.to_string()));
    }
    let c = o.get("Container")?.as_array()?;
    let kind = match c.first()?.as_str()? {
        "Fraction" => Kind::Frac,
        "Root" => Kind::Root,
        "Sup" => Kind::Sup,
        "Sub" => Kind::Sub,
        "Table" => Kind::Table,
        _ => return None,
    };
    let grid = c.get(1)?.as_object()?;
    let width = grid.get("width")?.as_u64()? as usize;
    let cells: Vec<MRow> = grid
        .get("values")?
        .as_array()?
        .iter()
        .map(|r| nodes(r.as_object()?.get("values")?))
        .collect::<Option<_>>()?;
    if c.len() != 2 || width == 0 || cells.len() % width != 0 {
        return None;
    }
    Some(MNode::Box(kind, width, cells))
}

pub fn truncate(text: &str, n: u64) -> String {
    let len = text.chars().count() as u64;
    text.chars()
        .take((n % (len + 1)) as usize)
        .collect()
}

const CHARS: &[char] = &[
    '0', '1', '2', '9', '"', '\\', '{', '}', '[', ']', ',', ':', 'a', '\u{0}', ' ', '-', '.', 'é',
    '\u{1f600}', '\n', 'x',
];

pub fn damage(text: &str, kind: u64, at: u64, n: u64) -> String {
    let mut c: Vec<char> = text.chars().collect();
    if c.is_empty() {
        return text.to_string();
    }
    let at = (at % c.len() as u64) as usize;
    let len = (1 + n as usize % 12).min(c.len() - at);
    match kind % 6 {
        0 => c[at] = CHARS[n as usize % CHARS.len()],
        1 => {
            c.drain(at..at + len);
        }
        2 => {
            let part: Vec<char> = c[at..at + len].to_vec();
            c.splice(at..at, part);
        }
        3 => c.insert(at, CHARS[n as usize % CHARS.len()]),
        4 => {
            // another digit somewhere
            let digits: Vec<usize> = (0..c.len()).filter(|i| c[*i].is_ascii_digit()).collect();
            if !digits.is_empty() {
                c[digits[at % digits.len()]] = char::from(b'0' + (n % 10) as u8);
            }
        }
        _ => {
            // a word replaced
            let s: String = c.iter().collect();
            let words = ["Table", "Root", "Fraction", "Sup", "Sub", "Symbol", "Container", "values", "width", "data", "version"];
            let a = words[at % words.len()];
            let b = words[n as usize % words.len()];
            return s.replacen(a, b, 1 + (at / words.len()) % 3);
        }
    }
    c.into_iter().collect()
}

/// Text that other programs and other versions leave on the clipboard.
pub fn foreign(kind: u64, n: u64) -> String {
    let row = |s: &str| format!("{{\"values\":[{s}]}}");
    let sym = |s: &str| format!("{{\"Symbol\":\"{s}\"}}");
    let wrap = |s: &str| format!("{{\"version\":1,\"data\":[{s}]}}");
    let boxed = |k: &str, w: i64, cells: &[String]| {
        format!("{{\"Container\":[\"{k}\",{{\"values\":[{}],\"width\":{w}}}]}}", cells.join(","))
    };
    let kinds = ["Fraction", "Root", "Sup", "Sub", "Table"];
    let k = kinds[n as usize % 5];
    let cells: Vec<String> = (0..(n / 5) % 5)
        .map(|i| row(&if i % 2 == 0 { sym("q") } else { String::new() }))
        .collect();
    match kind % 26 {
        0 => String::new(),
        1 => "null".into(),
        2 => "{}".into(),
        3 => "[]".into(),
        4 => "x^2 + \"y\" \\alpha".into(),
        5 => "{\"version\":1}".into(),
        6 => "{\"data\":[]}".into(),
        7 => format!("{{\"version\":2,\"data\":[{}]}}", sym("b")),
        8 => format!("{{\"data\":[{}],\"version\":1,\"theme\":\"dark\"}}", sym("b")),
        9 => format!(" {{ \"data\" : [ {} ] ,\n \"version\" : 1 }} ", sym("\\u0062\\u00e9")),
        10 => wrap("{\"Symbol\":5}"),
        11 => wrap(&boxed(k, 1, &cells)),
        12 => wrap(&boxed(k, 2, &cells)),
        13 => wrap(&boxed(k, 0, &cells)),
        14 => wrap(&boxed(k, -1, &cells)),
        15 => wrap(&boxed(k, i64::MAX, &cells)),
        16 => wrap(&boxed(k, 3, &cells)),
        17 => format!("{{\"version\":99999999999,\"data\":[{}]}}", sym("b")),
        18 => "[".repeat(1 + n as usize % 5000),
        19 => {
            let mut s = String::new();
            for _ in 0..1 + n % 60 {
                s = boxed("Sup", 1, &[row(&s)]);
            }
            wrap(&s)
        }
        20 => format!("[1,[{}]]", sym("b")),
        21 => format!("{{\"version\":1,\"version\":1,\"data\":[{}]}}", sym("b")),
        22 => wrap(&sym("")),
        23 => wrap(&format!("{},{}", sym("two words"), sym("\\ud83d\\ude00"))),
        24 => wrap(&format!("{},{}", boxed(k, 1, &cells), sym("l"))) + "x",
        _ => wrap(&boxed("Table", 2, &[row(""), row(&boxed("Root", 1, &cells)), row(&sym("i")), row("")])),
    }
}
