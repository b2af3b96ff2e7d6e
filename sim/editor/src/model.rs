//! A reference editor: what every event means, on plain owned data.
use crate::rules::Rule;
use std::cmp::Ordering;
use std::rc::Rc;
use treekit::{apply, places, row_at, Kind, MEdit, MNode, MRow, Path};

/// A caret place: path of the row, offset in it.
pub type P = (Path, usize);

pub fn cmp_places(a: &P, b: &P) -> Ordering {
    let n = a.0.len().max(b.0.len());
    for i in 0..=n {
        match (a.0.get(i), b.0.get(i)) {
            (Some(x), Some(y)) => match x.cmp(y) {
                Ordering::Equal => continue,
                o => return o,
            },
            // b's place is in the row in which a goes down into element x.0
            (Some(x), None) => {
                return if b.1 <= x.0 {
                    Ordering::Greater
                } else {
                    Ordering::Less
                }
            }
            (None, Some(y)) => {
                return if a.1 <= y.0 {
                    Ordering::Less
                } else {
                    Ordering::Greater
                }
            }
            (None, None) => return a.1.cmp(&b.1),
        }
    }
    Ordering::Equal
}

#[derive(Clone, Debug, PartialEq)]
pub enum Sel {
    Row {
        path: Path,
        start: usize,
        end: usize,
    },
    /// cells start..end (numbers, last exclusive) of the table
    Grid {
        path: Path,
        idx: usize,
        start: usize,
        end: usize,
        width: usize,
    },
}

impl Sel {
    pub fn is_grid(&self) -> bool {
        matches!(self, Sel::Grid { .. })
    }
}

/// The selection between two places: the innermost row (or table) that contains both.
pub fn selection(doc: &MRow, a: &P, b: &P) -> Sel {
    let shared = a.0.iter().zip(&b.0).take_while(|(x, y)| x == y).count();
    let path: Path = a.0[..shared].to_vec();
    let (na, nb) = (a.0.get(shared), b.0.get(shared));
    let forwards = cmp_places(a, b) != Ordering::Greater;
    // an end that is further down is widened to the whole element
    let start = match na {
        Some((i, _)) if forwards => *i,
        Some((i, _)) => *i + 1,
        None => a.1,
    };
    let end = match nb {
        Some((i, _)) if forwards => *i + 1,
        Some((i, _)) => *i,
        None => b.1,
    };
    if let (Some((i, ca)), Some((j, cb))) = (na, nb) {
        if i == j {
            let row = row_at(doc, &path).expect("place exists");
            if let MNode::Box(Kind::Table, w, _) = &row[*i] {
                return Sel::Grid {
                    path,
                    idx: *i,
                    start: *ca.min(cb),
                    end: ca.max(cb) + 1,
                    width: *w,
                };
            }
        }
    }
    Sel::Row { path, start, end }
}

/// Carries a place through a row edit.
pub fn carry(p: &mut P, e: &MEdit) {
    let MEdit::Row {
        insert,
        path,
        off,
        values,
    } = e
    else {
        return;
    };
    let n = values.len();
    if !p.0.starts_with(path) {
        return;
    }
    if p.0.len() == path.len() {
        if *insert {
            if p.1 > *off {
                p.1 += n;
            }
        } else if p.1 > *off {
            p.1 = (p.1 - (p.1 - *off).min(n)).max(*off);
        }
        return;
    }
    let i = p.0[path.len()].0;
    if *insert {
        if i >= *off {
            p.0[path.len()].0 += n;
        }
    } else if i >= *off + n {
        p.0[path.len()].0 -= n;
    } else if i >= *off {
        *p = (path.clone(), *off);
    }
}

/// Carries the text of an autocorrection (path, left, right) through an edit.
fn carry_text(t: &mut (Path, usize, usize), e: &MEdit) {
    let MEdit::Row {
        insert,
        path,
        off,
        values,
    } = e
    else {
        return;
    };
    if *insert && t.0 == *path && !values.is_empty() {
        // what is inserted at either edge or inside belongs to the text
        if *off < t.1 {
            t.1 += values.len();
        }
        if *off <= t.2 {
            t.2 += values.len();
        }
        return;
    }
    let (mut l, mut r) = ((t.0.clone(), t.1), (t.0.clone(), t.2));
    carry(&mut l, e);
    carry(&mut r, e);
    *t = (l.0, l.1, r.1);
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Dir {
    Left,
    Right,
    Up,
    Down,
}
pub const DIRS: [Dir; 4] = [Dir::Left, Dir::Right, Dir::Up, Dir::Down];

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rm {
    Left,
    Right,
    Range,
}

fn vertical(doc: &MRow, mut path: Path, up: bool) -> Option<P> {
    loop {
        let (i, c) = path.pop()?;
        let MNode::Box(kind, w, cells) = &row_at(doc, &path)?[i] else {
            return None;
        };
        match (kind, up) {
            (Kind::Sub, false) | (Kind::Sup, true) => return Some((path, i)),
            _ => {}
        }
        let y = c / w;
        let h = cells.len() / w;
        if up && y > 0 {
            let to = c - w;
            let end = cells[to].len();
            path.push((i, to));
            return Some((path, end));
        }
        if !up && y + 1 < h {
            path.push((i, c + w));
            return Some((path, 0));
        }
    }
}

/// The caret place one press further, if there is one.
pub fn step(doc: &MRow, p: &P, dir: Dir) -> Option<P> {
    match dir {
        Dir::Up | Dir::Down => vertical(doc, p.0.clone(), dir == Dir::Up),
        Dir::Left | Dir::Right => {
            let all = places(doc);
            let at = all.iter().position(|q| q == p).expect("place exists");
            if dir == Dir::Right {
                all.get(at + 1).cloned()
            } else if at > 0 {
                Some(all[at - 1].clone())
            } else {
                None
            }
        }
    }
}

pub struct Offer {
    pub rule: Rule,
    /// bytes of the rule's text
    pub rule_len: usize,
    /// symbols before the caret
    pub symbols: usize,
}

/// Every way in which at least two symbols directly before `off` are the
/// beginning of a rule's text, shortest text first.
pub fn offers(rules: &[Rule], row: &[MNode], off: usize) -> Vec<Offer> {
    let mut out: Vec<Offer> = vec![];
    for r in rules {
        // bytes of text before the caret -> most symbols that spell it
        let mut found: Vec<(usize, usize)> = vec![];
        let mut text = String::new();
        if !matches!(row[..off].last(), Some(MNode::Sym(s)) if !s.is_empty()) {
            continue;
        }
        for (k, n) in row[..off].iter().rev().enumerate() {
            let MNode::Sym(s) = n else { break };
            text.insert_str(0, s);
            if text.len() > r.text.len() {
                break;
            }
            if r.text.starts_with(&text) {
                match found.iter_mut().find(|f| f.0 == text.len()) {
                    Some(f) => f.1 = k + 1,
                    None => found.push((text.len(), k + 1)),
                }
            }
        }
        for (rule_len, symbols) in found {
            if symbols >= 2 {
                out.push(Offer {
                    rule: r.clone(),
                    rule_len,
                    symbols,
                });
            }
        }
    }
    out.sort_by_key(|o| o.rule_len);
    out
}

fn is_complete(rule: &Rule, row: &[MNode]) -> bool {
    let mut text = String::new();
    if !matches!(row.last(), Some(MNode::Sym(s)) if !s.is_empty()) {
        return false;
    }
    for n in row.iter().rev() {
        let MNode::Sym(s) = n else { break };
        text.insert_str(0, s);
        if text == rule.text {
            return true;
        }
    }
    false
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Why {
    Typed,
    Removed,
    Pasted,
    Auto,
    Spliced,
}

/// One undoable change.
#[derive(Clone)]
pub struct Entry {
    pub before: Rc<MRow>,
    pub caret_before: (P, P),
    pub after: Rc<MRow>,
    pub caret_after: (P, P),
    /// whether the raw ends were known before
    pub known: bool,
    pub why: Why,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Type(Vec<String>),
    Move(Dir),
    Select(Dir),
    Remove(Rm),
    SelectAll,
    Undo,
    Redo,
    Start(P, u8),
    Extend(P),
    Finish,
    Copy,
    /// text, and the content when it is known
    Paste(String, Option<Vec<MNode>>),
    AcOpen,
    AcFinish(bool),
    AcMove(bool),
    Splice(Path, usize, usize, Vec<MNode>),
    Focus(bool),
}

/// A completely typed rule that the caret may be about to leave.
struct Pending {
    rule: Rule,
    text: (Path, usize, usize),
}

#[derive(Clone)]
pub struct Model {
    pub doc: Rc<MRow>,
    pub start: P,
    pub end: P,
    /// the raw ends of the caret are known (not only the selection)
    pub raw_known: bool,
    pub remembered: Option<Rule>,
    pub undo: Vec<Entry>,
    pub redo: Vec<Entry>,
    pub rules: Rc<Vec<Rule>>,
}

/// What an event did in the model, for attribution.
#[derive(Default, Clone, Debug)]
pub struct Did {
    /// a complete rule stood before the caret when the event came
    pub pending: bool,
    pub corrected: bool,
    /// entry undone or redone
    pub walked: Option<Why>,
    /// undoable changes made
    pub pushed: usize,
    pub flattened: bool,
    pub removed_box: bool,
}

impl Model {
    pub fn new(rules: Rc<Vec<Rule>>) -> Self {
        Model {
            doc: Rc::new(vec![]),
            start: (vec![], 0),
            end: (vec![], 0),
            raw_known: true,
            remembered: None,
            undo: vec![],
            redo: vec![],
            rules,
        }
    }
    pub fn sel(&self) -> Sel {
        selection(&self.doc, &self.start, &self.end)
    }

    /// (selected, offers); remembers the selected rule.
    pub fn autocomplete(&mut self) -> Option<(usize, Vec<Offer>, P)> {
        let Sel::Row { path, start, end } = self.sel() else {
            return None;
        };
        if start != end {
            return None;
        }
        let list = offers(&self.rules, row_at(&self.doc, &path)?, start);
        if list.is_empty() {
            self.remembered = None;
            return None;
        }
        let i = self
            .remembered
            .take()
            .and_then(|r| list.iter().position(|o| o.rule == r))
            .unwrap_or(0);
        self.remembered = Some(list[i].rule.clone());
        Some((i, list, (path, start)))
    }

    fn pending(&mut self) -> Option<Pending> {
        let (i, list, (path, off)) = self.autocomplete()?;
        let o = &list[i];
        (o.rule_len == o.rule.text.len()).then(|| Pending {
            rule: o.rule.clone(),
            text: (path, off - o.symbols, off),
        })
    }

    fn change(&mut self, edits: &[MEdit], caret: (P, P), why: Why, did: &mut Did) {
        if edits.is_empty() {
            self.start = caret.0;
            self.end = caret.1;
            self.raw_known = true;
            return;
        }
        let before = self.doc.clone();
        let mut doc = (*self.doc).clone();
        for e in edits {
            apply(&mut doc, e).expect("the model's edits fit");
        }
        self.doc = Rc::new(doc);
        self.undo.push(Entry {
            before,
            caret_before: (self.start.clone(), self.end.clone()),
            after: self.doc.clone(),
            caret_after: caret.clone(),
            known: self.raw_known,
            why,
        });
        self.redo.clear();
        self.start = caret.0;
        self.end = caret.1;
        self.raw_known = true;
        did.pushed += 1;
    }

    fn leave(&mut self, pending: Option<Pending>, edits: &[MEdit], did: &mut Did) {
        let Some(mut p) = pending else { return };
        for e in edits {
            carry_text(&mut p.text, e);
        }
        let Sel::Row { path, start, .. } = self.sel() else {
            return;
        };
        let at = (path, start);
        let (l, r) = ((p.text.0.clone(), p.text.1), (p.text.0.clone(), p.text.2));
        let inside =
            cmp_places(&l, &at) != Ordering::Greater && cmp_places(&at, &r) != Ordering::Greater;
        if inside {
            return;
        }
        let row = row_at(&self.doc, &p.text.0).expect("carried text exists");
        if !is_complete(&p.rule, &row[p.text.1..p.text.2]) {
            return;
        }
        did.corrected = true;
        self.splice(&p.text.0, p.text.1, p.text.2, p.rule.result, Why::Auto, did);
    }

    fn splice(
        &mut self,
        path: &Path,
        a: usize,
        b: usize,
        values: Vec<MNode>,
        why: Why,
        did: &mut Did,
    ) {
        let edits = self.replace(path, a.min(b), a.max(b), values);
        let mut caret = (self.start.clone(), self.end.clone());
        for e in &edits {
            carry(&mut caret.0, e);
            carry(&mut caret.1, e);
        }
        let known = self.raw_known;
        self.change(&edits, caret, why, did);
        self.raw_known = known;
    }

    fn cut(&self, path: &Path, a: usize, b: usize) -> MEdit {
        MEdit::Row {
            insert: false,
            path: path.clone(),
            off: a,
            values: row_at(&self.doc, path).unwrap()[a..b].to_vec(),
        }
    }
    fn replace(&self, path: &Path, a: usize, b: usize, values: Vec<MNode>) -> Vec<MEdit> {
        vec![
            self.cut(path, a, b),
            MEdit::Row {
                insert: true,
                path: path.clone(),
                off: a,
                values,
            },
        ]
    }

    /// Edits and caret of a deletion; None when there is nothing to do.
    fn removal(&self, mode: Rm, did: &mut Did) -> Option<(Vec<MEdit>, P)> {
        let Sel::Row { path, start, end } = self.sel() else {
            return None;
        };
        let (a, b) = (start.min(end), start.max(end));
        if a != b || mode == Rm::Range {
            return Some((vec![self.cut(&path, a, b)], (path, a)));
        }
        let at: P = (path.clone(), a);
        let row = row_at(&self.doc, &path).unwrap();
        let left = mode == Rm::Left;
        let go = |dir| step(&self.doc, &at, dir).map(|p| (vec![], p));
        let dir = if left { Dir::Left } else { Dir::Right };
        let neighbour = if left {
            a.checked_sub(1)
        } else {
            (a < row.len()).then_some(a)
        };
        if let Some(i) = neighbour {
            return match &row[i] {
                MNode::Sym(_) => Some((vec![self.cut(&path, i, i + 1)], (path, i))),
                MNode::Box(Kind::Sup | Kind::Sub, ..) if !left => {
                    did.flattened = true;
                    Some(self.dissolve(&path, i, 0))
                }
                MNode::Box(..) => go(dir),
            };
        }
        // at an edge of a cell
        let mut up = path.clone();
        let (i, c) = up.pop()?;
        let MNode::Box(kind, _, cells) = &row_at(&self.doc, &up).unwrap()[i] else {
            unreachable!()
        };
        match kind {
            Kind::Sup | Kind::Sub if left => {
                did.flattened = true;
                return Some(self.dissolve(&up, i, 0));
            }
            Kind::Frac | Kind::Root if (left && c == 1) || (!left && c == 0) => {
                did.flattened = true;
                return Some(self.dissolve(&up, i, cells[0].len()));
            }
            _ => {}
        }
        let outermost = if left { c == 0 } else { c + 1 >= cells.len() };
        if outermost && cells.iter().all(|r| r.is_empty()) {
            did.removed_box = true;
            return Some(self.dissolve(&up, i, 0));
        }
        go(dir)
    }

    /// Replaces a construct by the content of its cells.
    fn dissolve(&self, path: &Path, i: usize, caret: usize) -> (Vec<MEdit>, P) {
        let MNode::Box(_, _, cells) = &row_at(&self.doc, path).unwrap()[i] else {
            unreachable!()
        };
        let values: Vec<MNode> = cells.iter().flatten().cloned().collect();
        (
            self.replace(path, i, i + 1, values),
            (path.clone(), i + caret),
        )
    }

    fn insert(&mut self, values: Vec<MNode>, why: Why, pending: Option<Pending>, did: &mut Did) {
        let Sel::Row { path, start, end } = self.sel() else {
            return;
        };
        let (a, b) = (start.min(end), start.max(end));
        let caret = (path.clone(), a + values.len());
        let edits = self.replace(&path, a, b, values);
        self.change(&edits, (caret.clone(), caret), why, did);
        self.leave(pending, &edits, did);
    }

    /// Executes an event. `pasted` is the outcome of reading the clipboard
    /// text: the content, or None when it was refused.
    pub fn exec(&mut self, ev: &Ev, pasted: Option<Vec<MNode>>) -> Did {
        let mut did = Did::default();
        let auto = matches!(
            ev,
            Ev::Type(_)
                | Ev::Move(_)
                | Ev::Select(_)
                | Ev::Remove(_)
                | Ev::Start(..)
                | Ev::Extend(_)
                | Ev::Paste(..)
        );
        let pending = if auto { self.pending() } else { None };
        did.pending = pending.is_some();
        match ev {
            Ev::Type(s) => {
                let values = s.iter().map(|x| MNode::Sym(x.clone())).collect();
                self.insert(values, Why::Typed, pending, &mut did);
            }
            Ev::Paste(..) => {
                if let Some(values) = pasted {
                    self.insert(values, Why::Pasted, pending, &mut did);
                }
            }
            Ev::Move(dir) => {
                if let Sel::Row { path, start, end } = self.sel() {
                    let off = match dir {
                        Dir::Left | Dir::Up => start.min(end),
                        _ => start.max(end),
                    };
                    let from = (path, off);
                    let to = match step(&self.doc, &from, *dir) {
                        Some(p) => Some(p),
                        None if start != end => Some(from),
                        None => None,
                    };
                    if let Some(p) = to {
                        self.change(&[], (p.clone(), p), Why::Typed, &mut did);
                    }
                }
                self.leave(pending, &[], &mut did);
            }
            Ev::Select(dir) => {
                if let Sel::Row { path, end, .. } = self.sel() {
                    if let Some(p) = step(&self.doc, &(path, end), *dir) {
                        let known = self.raw_known;
                        let start = self.start.clone();
                        self.change(&[], (start, p), Why::Typed, &mut did);
                        self.raw_known = known;
                        self.leave(pending, &[], &mut did);
                    }
                }
            }
            Ev::Remove(mode) => {
                if let Some((edits, p)) = self.removal(*mode, &mut did) {
                    self.change(&edits, (p.clone(), p), Why::Removed, &mut did);
                    self.leave(pending, &edits, &mut did);
                }
            }
            Ev::SelectAll => {
                self.start = (vec![], 0);
                self.end = (vec![], self.doc.len());
                self.raw_known = true;
            }
            Ev::Start(p, _) => {
                self.change(&[], (p.clone(), p.clone()), Why::Typed, &mut did);
                self.leave(pending, &[], &mut did);
            }
            Ev::Extend(p) => {
                let known = self.raw_known;
                self.end = p.clone();
                self.raw_known = known;
                self.leave(pending, &[], &mut did);
            }
            Ev::Undo => {
                if let Some(e) = self.undo.pop() {
                    self.doc = e.before.clone();
                    (self.start, self.end) = e.caret_before.clone();
                    self.raw_known = e.known;
                    did.walked = Some(e.why);
                    self.redo.push(e);
                }
            }
            Ev::Redo => {
                if let Some(e) = self.redo.pop() {
                    self.doc = e.after.clone();
                    (self.start, self.end) = e.caret_after.clone();
                    self.raw_known = e.known;
                    did.walked = Some(e.why);
                    self.undo.push(e);
                }
            }
            Ev::AcOpen => {
                self.autocomplete();
            }
            Ev::AcFinish(true) => {
                if let Some((i, list, (path, off))) = self.autocomplete() {
                    let o = &list[i];
                    let values = o.rule.result.clone();
                    self.splice(&path, off - o.symbols, off, values, Why::Auto, &mut did);
                }
            }
            Ev::AcMove(up) => {
                if let Some((i, list, _)) = self.autocomplete() {
                    let j = if *up {
                        i.saturating_sub(1)
                    } else {
                        (i + 1).min(list.len() - 1)
                    };
                    self.remembered = Some(list[j].rule.clone());
                }
            }
            Ev::Splice(path, a, b, values) => {
                self.splice(path, *a, *b, values.clone(), Why::Spliced, &mut did);
            }
            Ev::AcFinish(false) | Ev::Finish | Ev::Focus(_) | Ev::Copy => {}
        }
        did
    }
}
