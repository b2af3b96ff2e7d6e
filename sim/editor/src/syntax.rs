//! Syntax trees: what a tree must cover, and an independent reading of a row
//! by the declared operators (shunting-yard over a two-state reader).
use input_tree::grid::Grid;
use kernel::Rng;
use parser::{
    parse_module::{ParseModule, ParseRule},
    syntax_tree::{PathIdentifier, SyntaxNode, SyntaxNodeChildren, SyntaxNodeNameMap},
};
use std::rc::Rc;
use treekit::{Kind, MNode, MRow};
use unicode_ident::{is_xid_continue, is_xid_start};

// ------------------------------------------------------------------- reading

#[derive(Debug, Clone, PartialEq)]
pub enum Part {
    Children(Vec<Tree>),
    Rows(usize, Vec<Tree>),
    Leaf(Vec<String>),
}

/// A syntax tree as the editor hands it out.
#[derive(Debug, Clone, PartialEq)]
pub struct Tree {
    pub name: String,
    pub start: usize,
    pub end: usize,
    pub part: Part,
}

pub fn read(node: &SyntaxNode, names: &SyntaxNodeNameMap) -> Tree {
    let r = node.range();
    Tree {
        name: names
            .get_reverse(node.name)
            .filter(|n| names.get(n) == Some(node.name))
            .map(|n| n.to_string())
            .unwrap_or_default(),
        start: r.start,
        end: r.end,
        part: match &node.children {
            SyntaxNodeChildren::Children(c) => {
                Part::Children(c.iter().map(|c| read(c, names)).collect())
            }
            SyntaxNodeChildren::NewRows(g) => {
                Part::Rows(g.width(), g.values().map(|c| read(c, names)).collect())
            }
            SyntaxNodeChildren::Leaf(l) => Part::Leaf(l.symbols.clone()),
        },
    }
}

// ------------------------------------------------------------------ covering

/// What is wrong with a tree as the tree of a row.
pub fn covers(t: &Tree, row: &MRow) -> Option<(&'static str, String)> {
    if (t.start, t.end) != (0, row.len()) {
        return Some((
            "row-not-covered",
            format!("the tree of a row of {} elements spans {}..{}", row.len(), t.start, t.end),
        ));
    }
    covers_range(t, row)
}

fn covers_range(t: &Tree, row: &MRow) -> Option<(&'static str, String)> {
    let at = || format!("{} at {}..{} of {}", t.name, t.start, t.end, treekit::show(row));
    if t.name.is_empty() {
        return Some(("node-without-name", at()));
    }
    if t.start > t.end || t.end > row.len() {
        return Some(("range-outside-row", at()));
    }
    match &t.part {
        Part::Children(c) if c.is_empty() => {
            (t.start != t.end).then(|| ("tokens-not-covered", at()))
        }
        Part::Children(c) => {
            let mut next = t.start;
            for c in c {
                if c.start != next {
                    let what = if c.start > next { "gap" } else { "overlap" };
                    return Some((what, format!("{} before child {}..{} of {}", what, c.start, c.end, at())));
                }
                if let Some(e) = covers_range(c, row) {
                    return Some(e);
                }
                next = c.end;
            }
            (next != t.end).then(|| ("children-end-early", at()))
        }
        Part::Leaf(symbols) => {
            if t.start == t.end {
                return Some(("empty-leaf", at()));
            }
            // One entry for every symbol: the page places carets by them
            let mut text = vec![];
            for n in &row[t.start..t.end] {
                match n {
                    MNode::Sym(s) => text.push(s.as_str()),
                    MNode::Box(..) => return Some(("construct-read-as-symbol", at())),
                }
            }
            (*symbols != text)
                .then(|| ("leaf-of-other-symbols", format!("{symbols:?} in {}", at())))
        }
        Part::Rows(width, cells) => {
            let Some(MNode::Box(_, w, rows)) = row.get(t.start).filter(|_| t.end == t.start + 1)
            else {
                return Some(("rows-without-construct", at()));
            };
            if width != w || cells.len() != rows.len() {
                return Some((
                    "cells-of-another-shape",
                    format!("{} cells, width {width}, for {}", cells.len(), at()),
                ));
            }
            cells.iter().zip(rows).find_map(|(c, r)| covers(c, r))
        }
    }
}

// ----------------------------------------------------------------- grammar

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Fix {
    Prefix,
    Left,
    Right,
    Postfix,
}

#[derive(Debug, Clone, PartialEq)]
enum Text {
    Symbols(Vec<String>),
    Brackets,
    EmptyBrackets,
    Cells(Kind),
}

#[derive(Debug, Clone)]
struct Op {
    name: String,
    fix: Fix,
    power: u16,
    text: Text,
}

#[derive(Debug, Clone)]
enum Atom {
    Symbols(String, Vec<String>),
    Cells(String, Kind),
    Variable(String),
    Number(String),
    Quoted(String),
    Brackets(String),
    EmptyBrackets(String),
}

/// An operator that the simulated page declares.
#[derive(Debug, Clone)]
pub struct PageOp {
    pub name: String,
    pub fix: Fix,
    pub power: u16,
    pub symbols: Vec<String>,
}

const WORDS: &[&str] = &["∘", "⊕", "&", "~", "@", "#"];
const POWERS: &[u16] = &[
    0, 1, 39, 40, 41, 50, 99, 100, 100, 100, 101, 150, 200, 200, 399, 400, 401, 600, 799, 800, 850, 1000, 65535,
];

/// Operators of the simulated page; texts overlap, powers collide.
pub fn page_ops(rng: &mut Rng) -> Vec<PageOp> {
    let n = 1 + rng.below(6);
    let letters = 2 + rng.usize(WORDS.len() - 1);
    let high = rng.permille(250);
    (0..n)
        .map(|i| {
            let len = 1 + rng.skewed(2);
            let fix = [Fix::Prefix, Fix::Left, Fix::Left, Fix::Right, Fix::Right, Fix::Postfix][rng.usize(6)];
            let power = loop {
                let p = if rng.permille(850) { *rng.pick(POWERS) } else { rng.below(1000) as u16 };
                // operators that bind more tightly than brackets make the
                // parser read the brackets again and again
                if p < 800 || high {
                    break p;
                }
            };
            PageOp {
                name: format!("Op{i}"),
                fix,
                power,
                symbols: (0..len)
                    .map(|_| rng.pick(&WORDS[..letters]).to_string())
                    .collect(),
            }
        })
        .collect()
}

/// A rule's number stands for its name and for no other.
pub fn misnamed(names: &SyntaxNodeNameMap, page: &[PageOp]) -> Option<String> {
    let own = page.iter().map(|o| format!("Page::{}", o.name));
    let shipped = OPS.iter().map(|o| o.0.to_string()).chain(
        ["BuiltIn::Fraction", "BuiltIn::Sup", "Core::Variable", "Core::RoundBrackets", "Arithmetic::Number", "String::String"]
            .map(String::from),
    );
    own.chain(shipped).find(|name| {
        let path = PathIdentifier::new(name.split("::").map(String::from).collect());
        match names.get(&path) {
            Some(id) => names.get_reverse(id) != Some(&path),
            None => name.starts_with("Page::"),
        }
    })
}

/// The repository's operators: name, kind, binding power, text.
const OPS: &[(&str, Fix, u16, &[&str])] = &[
    ("Arithmetic::Add", Fix::Left, 100, &["+"]),
    ("Arithmetic::Subtract", Fix::Left, 100, &["-"]),
    ("Arithmetic::Add", Fix::Prefix, 400, &["+"]),
    ("Arithmetic::Subtract", Fix::Prefix, 400, &["-"]),
    ("Arithmetic::Multiply", Fix::Left, 200, &["*"]),
    ("Arithmetic::Divide", Fix::Left, 200, &["/"]),
    ("Arithmetic::Exponent", Fix::Postfix, 850, &["^"]),
    ("Arithmetic::Factorial", Fix::Postfix, 600, &["!"]),
    ("Calculus::Lim", Fix::Prefix, 100, &["l", "i", "m"]),
    ("Calculus::LimSup", Fix::Prefix, 100, &["l", "i", "m", "s", "u", "p"]),
    ("Calculus::LimInf", Fix::Prefix, 100, &["l", "i", "m", "i", "n", "f"]),
    ("Calculus::Sum", Fix::Prefix, 100, &["∑"]),
    ("Calculus::Integral", Fix::Prefix, 100, &["∫"]),
    ("Collections::Tuple", Fix::Left, 50, &[","]),
    ("Comparison::Equals", Fix::Left, 40, &["="]),
    ("Comparison::GreaterThan", Fix::Left, 50, &[">"]),
    ("Comparison::LessThan", Fix::Left, 50, &["<"]),
    ("Comparison::GreaterThanOrEquals", Fix::Left, 50, &["≥"]),
    ("Comparison::LessThanOrEquals", Fix::Left, 50, &["≤"]),
    ("Logic::And", Fix::Left, 100, &["∧"]),
    ("Logic::Or", Fix::Left, 100, &["∨"]),
    ("Logic::Not", Fix::Left, 100, &["¬"]),
    ("Logic::Equivalent", Fix::Left, 100, &["⇔"]),
    ("Logic::Implies", Fix::Left, 100, &["⟹"]),
];

#[derive(Debug, Clone, Default)]
pub struct Grammar {
    /// every list in the order in which it is tried
    prefix: Vec<Op>,
    infix: Vec<Op>,
    postfix: Vec<Op>,
    atoms: Vec<Atom>,
    /// a module declares something this reading does not know
    unknown: Option<String>,
    /// whether symbols that no rule reads are read as well, one by one
    loose: bool,
    pub tokens: Vec<Vec<String>>,
}

impl Grammar {
    pub fn new(
        modules: &[Rc<dyn ParseModule>],
        names: &SyntaxNodeNameMap,
        page: &[PageOp],
    ) -> Grammar {
        let mut g = Grammar::default();
        let mut brackets = 0;
        let mut application = 0;
        for rule in modules.iter().flat_map(|m| m.get_rules()) {
            let Some(id) = rule.rule_name() else { continue };
            let name = names.get_reverse(*id).map(|n| n.to_string()).unwrap_or_default();
            let (fix, power) = match rule {
                ParseRule::NameOnly(_) => continue,
                ParseRule::Atom(..) => {
                    let text = |s: &str| Atom::Symbols(name.clone(), vec![s.to_string()]);
                    let atom = match name.as_str() {
                        "BuiltIn::Fraction" => Atom::Cells(name, Kind::Frac),
                        "BuiltIn::Root" => Atom::Cells(name, Kind::Root),
                        "BuiltIn::Table" => Atom::Cells(name, Kind::Table),
                        "Core::Variable" => Atom::Variable(name),
                        "Core::RoundBrackets" => {
                            brackets += 1;
                            if brackets == 1 {
                                Atom::Brackets(name)
                            } else {
                                Atom::EmptyBrackets(name)
                            }
                        }
                        "Arithmetic::Number" => Atom::Number(name),
                        "Calculus::Infinity" => text("∞"),
                        "Logic::True" => text("⊤"),
                        "Logic::False" => text("⊥"),
                        "String::String" => Atom::Quoted(name),
                        _ => {
                            g.unknown = Some(name);
                            continue;
                        }
                    };
                    g.atoms.push(atom);
                    continue;
                }
                ParseRule::Prefix(_, p, _) => (Fix::Prefix, *p),
                ParseRule::LeftInfix(_, p, _) => (Fix::Left, *p),
                ParseRule::RightInfix(_, p, _) => (Fix::Right, *p),
                ParseRule::Postfix(_, p, _) => (Fix::Postfix, *p),
            };
            let infix = |f: Fix| matches!(f, Fix::Left | Fix::Right);
            // what the page declared counts, not what became of it
            let declared = page.iter().find(|o| format!("Page::{}", o.name) == name);
            let (fix, power) = declared.map(|o| (o.fix, o.power)).unwrap_or((fix, power));
            let known = OPS
                .iter()
                .find(|o| o.0 == name && (o.1 == fix || infix(o.1) && infix(fix)));
            // arithmetic groups to the left, the others as they declare
            let fix = match known {
                Some(o) if infix(fix) && name.starts_with("Arithmetic::") => o.1,
                _ => fix,
            };
            let (text, pinned) = match (name.as_str(), fix) {
                ("BuiltIn::Sup", Fix::Postfix) => (Text::Cells(Kind::Sup), 1000),
                ("BuiltIn::Sub", Fix::Postfix) => (Text::Cells(Kind::Sub), 1000),
                ("Function::FunctionApplication", Fix::Postfix) => {
                    application += 1;
                    if application == 1 {
                        (Text::Brackets, 800)
                    } else {
                        (Text::EmptyBrackets, 800)
                    }
                }
                _ => match (known, declared) {
                    (Some(o), _) => (
                        Text::Symbols(o.3.iter().map(|s| s.to_string()).collect()),
                        o.2,
                    ),
                    (None, Some(o)) => (Text::Symbols(o.symbols.clone()), o.power),
                    (None, None) => {
                        g.unknown = Some(name);
                        continue;
                    }
                },
            };
            if let Text::Symbols(s) = &text {
                g.tokens.push(s.clone());
            }
            // the shipped rules among themselves have the usual powers; next
            // to a page's operators, what they declare counts
            let op = Op {
                name,
                fix,
                power: if page.is_empty() { pinned } else { power },
                text,
            };
            match fix {
                Fix::Prefix => g.prefix.push(op),
                Fix::Left | Fix::Right => g.infix.push(op),
                Fix::Postfix => g.postfix.push(op),
            }
        }
        // later rules take priority
        g.prefix.reverse();
        g.infix.reverse();
        g.postfix.reverse();
        g.atoms.reverse();
        g
    }

    /// The reading that gives the sequence of tokens also for rows with
    /// symbols that no rule reads; how those group is not specified.
    pub fn loose(&self) -> Grammar {
        Grammar {
            loose: true,
            ..self.clone()
        }
    }

    pub fn tight(&self) -> bool {
        self.prefix.iter().chain(&self.infix).any(|o| o.power >= 600)
    }

    /// A row of tokens that the grammar knows.
    pub fn row(&self, rng: &mut Rng, n: u64, depth: u64, left: &mut usize) -> MRow {
        let numbers = self.atoms.iter().any(|a| matches!(a, Atom::Number(_)));
        let mut row: MRow = vec![];
        let mut operand = rng.permille(850);
        for _ in 0..n {
            let sym = |row: &mut MRow, s: &str| row.push(MNode::Sym(s.to_string()));
            if rng.permille(80) {
                let n = if rng.permille(60) { rng.below(16) } else { 1 };
                (0..n).for_each(|_| sym(&mut row, " "));
            }
            if rng.permille(12) {
                for _ in 0..1 + rng.below(3) {
                    sym(&mut row, ["¤", "§", ";", "1a", "¤"][rng.usize(5)]);
                }
                continue;
            }
            if operand {
                if rng.permille(40) {
                    sym(&mut row, "\"");
                    let n = if rng.permille(100) { rng.below(30) } else { rng.below(4) };
                    for _ in 0..n {
                        match rng.below(8) {
                            0 => sym(&mut row, " "),
                            1 | 2 => {
                                sym(&mut row, "\\");
                                sym(&mut row, ["\"", "\\", "a"][rng.usize(3)]);
                            }
                            3 => sym(&mut row, ["(", ")", "¤"][rng.usize(3)]),
                            _ => sym(&mut row, ["a", "1", "+"][rng.usize(3)]),
                        }
                    }
                    sym(&mut row, "\"");
                    operand = rng.permille(60);
                    continue;
                }
                match rng.below(14) {
                    0..=4 => {
                        let n = if rng.permille(20) { rng.below(30) } else { 1 };
                        (0..n).for_each(|_| sym(&mut row, ["a", "b", "x"][rng.usize(3)]));
                    }
                    5..=7 if !numbers => sym(&mut row, ["a", "(", "é"][rng.weighted(&[20, 1, 10])]),
                    k @ 5..=7 => {
                        let mut digits = |row: &mut MRow, rng: &mut Rng| {
                            let n = if rng.permille(60) { 1 + rng.below(30) } else { 1 };
                            (0..n).for_each(|_| sym(row, ["1", "2", "12"][rng.weighted(&[20, 20, 1])]));
                        };
                        digits(&mut row, rng);
                        if k == 7 {
                            sym(&mut row, ".");
                            digits(&mut row, rng);
                        }
                    }
                    8 | 9 if *left > 0 => {
                        *left -= 1;
                        sym(&mut row, "(");
                        let n = rng.below(5);
                        row.extend(self.row(rng, n, depth, left));
                        sym(&mut row, ")");
                    }
                    10 | 11 if depth > 0 && *left > 0 => {
                        *left -= 1;
                        let mut cell = |rng: &mut Rng| {
                            let n = rng.below(5);
                            self.row(rng, n, depth - 1, left)
                        };
                        row.push(match rng.below(3) {
                            0 => MNode::Box(Kind::Frac, 1, vec![cell(rng), cell(rng)]),
                            1 => MNode::Box(Kind::Root, 2, vec![cell(rng), cell(rng)]),
                            _ => MNode::Box(
                                Kind::Table,
                                2,
                                vec![cell(rng), cell(rng), cell(rng), cell(rng)],
                            ),
                        });
                    }
                    12 => sym(&mut row, ["⊤", "⊥", "é", "∞"][rng.usize(3 + numbers as usize)]),
                    // an operand is missing, or a prefix operator
                    _ => {
                        if !self.tokens.is_empty() {
                            row.extend(rng.pick(&self.tokens).iter().cloned().map(MNode::Sym));
                        }
                    }
                }
                operand = rng.permille(60);
            } else {
                match rng.below(10) {
                    0 if depth > 0 && *left > 0 => {
                        *left -= 1;
                        let n = rng.below(4);
                        let cell = self.row(rng, n, depth - 1, left);
                        let k = if rng.permille(500) { Kind::Sup } else { Kind::Sub };
                        row.push(MNode::Box(k, 1, vec![cell]));
                    }
                    _ if self.tokens.is_empty() => {}
                    _ => {
                        row.extend(rng.pick(&self.tokens).iter().cloned().map(MNode::Sym));
                        // scripts of an operator
                        while rng.permille(100) {
                            for _ in 0..1 + rng.below(3) {
                                let k = if rng.permille(500) { Kind::Sup } else { Kind::Sub };
                                let cell = (0..rng.below(2)).map(|_| MNode::Sym("a".into())).collect();
                                row.push(MNode::Box(k, 1, vec![cell]));
                            }
                            if rng.permille(200) {
                                sym(&mut row, " ");
                            }
                        }
                        operand = rng.permille(850);
                    }
                }
            }
        }
        row
    }
}

// ---------------------------------------------------------------- reference

/// A tree without ranges and spaces.
#[derive(Debug, Clone, PartialEq)]
pub struct Shape {
    pub name: String,
    pub text: String,
    pub kids: Vec<Shape>,
}

fn shape(name: &str, kids: Vec<Shape>) -> Shape {
    Shape {
        name: name.to_string(),
        text: String::new(),
        kids,
    }
}
fn leaf(name: &str, text: String) -> Shape {
    Shape {
        name: name.to_string(),
        text,
        kids: vec![],
    }
}
fn missing() -> Shape {
    shape("Error::MissingToken", vec![])
}

impl std::fmt::Display for Shape {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        if self.kids.is_empty() && !self.text.is_empty() {
            return write!(f, "{}", self.text);
        }
        write!(f, "({}", self.name.split("::").last().unwrap_or(""))?;
        for k in &self.kids {
            write!(f, " {k}")?;
        }
        write!(f, ")")
    }
}

/// The shape of a tree the editor handed out: spaces are dropped.
pub fn plain(t: &Tree) -> Shape {
    match &t.part {
        Part::Leaf(s) => leaf(&t.name, s.concat()),
        Part::Rows(_, c) => shape(&t.name, c.iter().map(plain).collect()),
        Part::Children(c) => {
            if t.name == "BuiltIn::Whitespaces" {
                let mut inner: Vec<&Tree> =
                    c.iter().filter(|c| c.name != "BuiltIn::Whitespace").collect();
                if inner.len() == 1 {
                    return plain(inner.remove(0));
                }
            }
            if t.name == "BuiltIn::Nothing" && c.is_empty() {
                return missing();
            }
            shape(&t.name, c.iter().map(plain).collect())
        }
    }
}

impl Shape {
    /// What stands in it from left to right, however it groups.
    pub fn tokens(&self) -> Vec<(&str, &str)> {
        if self.kids.is_empty() {
            return vec![(&self.name, &self.text)];
        }
        self.kids.iter().flat_map(|k| k.tokens()).collect()
    }
}

struct Pending {
    name: String,
    /// the operator's own node, or none where an operator is missing
    node: Option<Shape>,
    fix: Fix,
    right: (u16, bool),
}

fn powers(fix: Fix, p: u16) -> ((u16, bool), (u16, bool)) {
    // (left, right); true is the stronger of the two sides
    match fix {
        Fix::Left | Fix::Prefix => ((p, false), (p, true)),
        Fix::Right | Fix::Postfix => ((p, true), (p, false)),
    }
}

fn sym(row: &[MNode], i: usize) -> Option<&str> {
    match row.get(i) {
        Some(MNode::Sym(s)) => Some(s),
        _ => None,
    }
}
fn spaces(row: &[MNode], mut i: usize) -> usize {
    while sym(row, i) == Some(" ") {
        i += 1;
    }
    i
}
fn text_at(row: &[MNode], i: usize, text: &[String]) -> bool {
    text.iter().enumerate().all(|(k, s)| sym(row, i + k) == Some(s))
}

impl Grammar {
    /// How the row groups by the declared binding powers; none when it holds
    /// something that no rule reads (the recovery from that is not specified).
    pub fn reading(&self, row: &[MNode]) -> Option<Shape> {
        if self.unknown.is_some() {
            return None;
        }
        self.run(row, 0, false).map(|(s, _)| s)
    }

    fn cells(&self, rows: &[MRow]) -> Option<Vec<Shape>> {
        rows.iter().map(|r| self.reading(r)).collect()
    }

    fn brackets(&self, row: &[MNode], i: usize) -> Option<(Vec<Shape>, usize)> {
        if sym(row, i) != Some("(") {
            return None;
        }
        let (inner, end) = self.run(row, i + 1, true)?;
        let op = |s: &str| leaf("BuiltIn::Operator", s.to_string());
        Some((vec![op("("), inner, op(")")], end + 1))
    }

    /// The operand at `i`; Err when there is something whose reading is not specified.
    fn atom(&self, row: &[MNode], i: usize) -> Result<Option<(Shape, usize)>, ()> {
        for a in &self.atoms {
            match a {
                Atom::Symbols(name, text) => {
                    if text_at(row, i, text) {
                        return Ok(Some((leaf(name, text.concat()), i + text.len())));
                    }
                }
                Atom::Cells(name, kind) => {
                    if let Some(MNode::Box(k, _, rows)) = row.get(i) {
                        if k == kind {
                            return Ok(Some((shape(name, self.cells(rows).ok_or(())?), i + 1)));
                        }
                    }
                }
                Atom::Variable(name) => {
                    let start = |s: &str| {
                        let mut c = s.chars();
                        c.next().map(is_xid_start).unwrap_or(false) && c.all(is_xid_continue)
                    };
                    if sym(row, i).map(start).unwrap_or(false) {
                        let mut k = i + 1;
                        while sym(row, k).map(|s| s.chars().all(is_xid_continue)).unwrap_or(false) {
                            k += 1;
                        }
                        let text: String = (i..k).filter_map(|j| sym(row, j)).collect();
                        return Ok(Some((leaf(name, text), k)));
                    }
                }
                Atom::Number(name) => {
                    let digits = |mut k: usize| {
                        while sym(row, k)
                            .map(|s| s.chars().all(|c| c.is_ascii_digit()))
                            .unwrap_or(false)
                        {
                            k += 1;
                        }
                        k
                    };
                    let mut k = digits(i);
                    if k > i {
                        if sym(row, k) == Some(".") && digits(k + 1) > k + 1 {
                            k = digits(k + 1);
                        }
                        let text: String = (i..k).filter_map(|j| sym(row, j)).collect();
                        return Ok(Some((leaf(name, text), k)));
                    }
                }
                Atom::Quoted(name) => {
                    if sym(row, i) == Some("\"") {
                        let mut k = i + 1;
                        loop {
                            match sym(row, k) {
                                // without an end it is no string
                                None => return Err(()),
                                Some("\"") => break,
                                Some("\\") => {
                                    sym(row, k + 1).ok_or(())?;
                                    k += 2;
                                }
                                Some(_) => k += 1,
                            }
                        }
                        let text: String = (i..=k).filter_map(|j| sym(row, j)).collect();
                        return Ok(Some((leaf(name, text), k + 1)));
                    }
                }
                Atom::EmptyBrackets(name) => {
                    if sym(row, i) == Some("(") && sym(row, i + 1) == Some(")") {
                        let op = |s: &str| leaf("BuiltIn::Operator", s.to_string());
                        return Ok(Some((shape(name, vec![op("("), op(")")]), i + 2)));
                    }
                }
                Atom::Brackets(name) => {
                    if sym(row, i) == Some("(") {
                        let (kids, k) = self.brackets(row, i).ok_or(())?;
                        return Ok(Some((shape(name, kids), k)));
                    }
                }
            }
        }
        Ok(None)
    }

    fn operator<'g>(
        &self,
        ops: &'g [Op],
        row: &[MNode],
        i: usize,
    ) -> Result<Option<(&'g Op, Shape, usize)>, ()> {
        let name = "BuiltIn::Operator";
        for op in ops {
            match &op.text {
                Text::Symbols(text) => {
                    if text_at(row, i, text) {
                        return Ok(Some((op, leaf(name, text.concat()), i + text.len())));
                    }
                }
                Text::Cells(kind) => {
                    if let Some(MNode::Box(k, _, rows)) = row.get(i) {
                        if k == kind {
                            let node = shape(name, self.cells(rows).ok_or(())?);
                            return Ok(Some((op, node, i + 1)));
                        }
                    }
                }
                Text::EmptyBrackets => {
                    if sym(row, i) == Some("(") && sym(row, i + 1) == Some(")") {
                        let op_ = |s: &str| leaf(name, s.to_string());
                        return Ok(Some((op, shape(name, vec![op_("("), op_(")")]), i + 2)));
                    }
                }
                Text::Brackets => {
                    if sym(row, i) == Some("(") {
                        let (kids, k) = self.brackets(row, i).ok_or(())?;
                        return Ok(Some((op, shape(name, kids), k)));
                    }
                }
            }
        }
        Ok(None)
    }

    /// A symbol that no rule reads, as far as it is clear what becomes of it.
    fn unread(&self, row: &[MNode], i: usize) -> Option<Shape> {
        let s = sym(row, i).filter(|_| self.loose)?;
        (!matches!(s, " " | "(" | "\"")).then(|| leaf("Error::UnknownToken", s.to_string()))
    }

    /// Subscripts and superscripts right after a prefix or infix operator are its own.
    fn decorated(&self, row: &[MNode], mut node: Shape, i: usize) -> Option<(Shape, usize)> {
        let mut k = spaces(row, i);
        while let Some(MNode::Box(kind, _, rows)) = row.get(k) {
            let name = match kind {
                Kind::Sub => "BuiltIn::Sub",
                Kind::Sup => "BuiltIn::Sup",
                _ => break,
            };
            node = shape(name, vec![node, shape("BuiltIn::Operator", self.cells(rows)?)]);
            k = spaces(row, k + 1);
        }
        Some((node, k))
    }

    /// Reads from `i` to the end of the row, or to a closing bracket.
    fn run(&self, row: &[MNode], mut i: usize, closing: bool) -> Option<(Shape, usize)> {
        let mut done: Vec<Shape> = vec![];
        let mut open: Vec<Pending> = vec![];
        let reduce = |done: &mut Vec<Shape>, open: &mut Vec<Pending>| {
            let p = open.pop().unwrap();
            let right = done.pop().unwrap();
            let node = match (p.fix, p.node) {
                (Fix::Prefix, Some(n)) => shape(&p.name, vec![n, right]),
                (_, Some(n)) => shape(&p.name, vec![done.pop().unwrap(), n, right]),
                (_, None) => shape(&p.name, vec![done.pop().unwrap(), missing(), right]),
            };
            done.push(node);
        };
        loop {
            // an operand is due
            let j = spaces(row, i);
            if i == row.len() {
                if closing {
                    return None;
                }
                done.push(missing());
                break;
            } else if let Some((op, node, k)) = self.operator(&self.prefix, row, j).ok()? {
                let (node, k) = self.decorated(row, node, k)?;
                open.push(Pending {
                    name: op.name.clone(),
                    node: Some(node),
                    fix: Fix::Prefix,
                    right: powers(Fix::Prefix, op.power).1,
                });
                i = k;
                continue;
            } else if let Some((node, k)) = self.atom(row, j).ok()? {
                done.push(node);
                i = spaces(row, k);
            } else if self.operator(&self.infix, row, j).ok()?.is_some()
                || self.operator(&self.postfix, row, j).ok()?.is_some()
            {
                done.push(missing());
            } else if closing && sym(row, i) == Some(")") {
                done.push(missing());
                break;
            } else {
                done.push(self.unread(row, i)?);
                i += 1;
            }
            // operators are due
            let mut operand = false;
            while !operand {
                let j = spaces(row, i);
                let before = |left: (u16, bool), done: &mut Vec<Shape>, open: &mut Vec<Pending>| {
                    while open.last().map(|p| left < p.right).unwrap_or(false) {
                        reduce(done, open);
                    }
                };
                if i == row.len() {
                    if closing {
                        return None;
                    }
                    break;
                } else if let Some((op, node, k)) = self.operator(&self.infix, row, j).ok()? {
                    let (left, right) = powers(op.fix, op.power);
                    before(left, &mut done, &mut open);
                    let (node, k) = self.decorated(row, node, k)?;
                    open.push(Pending {
                        name: op.name.clone(),
                        node: Some(node),
                        fix: op.fix,
                        right,
                    });
                    i = k;
                    operand = true;
                } else if let Some((op, node, k)) = self.operator(&self.postfix, row, j).ok()? {
                    before(powers(Fix::Postfix, op.power).0, &mut done, &mut open);
                    let of = done.pop().unwrap();
                    done.push(shape(&op.name, vec![of, node]));
                    i = spaces(row, k);
                } else if self.operator(&self.prefix, row, j).ok()?.is_some()
                    || self.atom(row, j).ok()?.is_some()
                {
                    let (left, right) = powers(Fix::Left, 100);
                    before(left, &mut done, &mut open);
                    open.push(Pending {
                        name: "Error::MissingOperator".into(),
                        node: None,
                        fix: Fix::Left,
                        right,
                    });
                    operand = true;
                } else if closing && sym(row, i) == Some(")") {
                    break;
                } else {
                    // no operator is due, but what follows is no operand either
                    let node = self.unread(row, i)?;
                    let of = done.pop().unwrap();
                    done.push(shape("Error::MissingOperator", vec![of, missing(), node]));
                    i += 1;
                }
            }
            if !operand {
                break;
            }
        }
        while !open.is_empty() {
            reduce(&mut done, &mut open);
        }
        (done.len() == 1).then(|| (done.pop().unwrap(), i))
    }
}
