//! One editor on the page: the real one, the reference, and the oracles that
//! compare them after every event.
use crate::model::*;
use caret::{
    caret::MinimalCaretSelection,
    math_editor::{MathEditor, SerializedDataType},
    primitive::{primitive_edit::CaretRemoveMode, MoveMode},
};
use input_tree::{
    direction::{Direction, VerticalDirection},
    focus::{MinimalInputRowPosition, MinimalInputRowRange},
};
use kernel::{guard, rng::hash_str, rng::mix, Ctx, Panicked, Stop};
use parser::parser::MathParser;
use crate::rules::Built;
use crate::syntax;
use std::rc::Rc;
use treekit::{real, row_at, MNode, MRow};

/// serde_json reads at most 128 levels, of which a container takes 6.
const MAX_LOADABLE: usize = 20;

/// What an event handed back.
#[derive(Clone, Debug, PartialEq)]
pub enum Ret {
    Nothing,
    Flag(bool),
    Copied(Result<String, String>),
    Pasted(Result<(), String>),
}

fn mode(n: u8) -> MoveMode {
    match n % 3 {
        0 => MoveMode::Char,
        1 => MoveMode::Word,
        _ => MoveMode::Line,
    }
}
fn direction(d: Dir) -> Direction {
    match d {
        Dir::Left => Direction::Left,
        Dir::Right => Direction::Right,
        Dir::Up => Direction::Up,
        Dir::Down => Direction::Down,
    }
}
fn pos(p: &P) -> MinimalInputRowPosition {
    real::position(&p.0, p.1)
}

/// Sends an event to a real editor.
pub fn send(ed: &mut MathEditor, ev: &Ev) -> Result<Ret, Panicked> {
    guard(|| match ev {
        Ev::Type(s) => {
            ed.insert_at_caret(s.clone());
            Ret::Nothing
        }
        Ev::Move(d) => {
            ed.move_caret(direction(*d), MoveMode::Char);
            Ret::Nothing
        }
        Ev::Select(d) => Ret::Flag(
            ed.select_with_caret(direction(*d), MoveMode::Char)
                .is_some(),
        ),
        Ev::Remove(m) => Ret::Flag(
            ed.remove_at_caret(
                match m {
                    Rm::Left => CaretRemoveMode::Left,
                    Rm::Right => CaretRemoveMode::Right,
                    Rm::Range => CaretRemoveMode::Range,
                },
                MoveMode::Char,
            )
            .is_some(),
        ),
        Ev::SelectAll => {
            ed.select_all();
            Ret::Nothing
        }
        Ev::Undo => Ret::Flag(ed.undo().is_some()),
        Ev::Redo => Ret::Flag(ed.redo().is_some()),
        Ev::Start(p, m) => {
            ed.start_selection(pos(p), mode(*m));
            Ret::Nothing
        }
        Ev::Extend(p) => {
            ed.extend_selection(pos(p));
            Ret::Nothing
        }
        Ev::Finish => {
            ed.finish_selection();
            Ret::Nothing
        }
        Ev::Copy => Ret::Copied(
            ed.copy(SerializedDataType::JsonInputTree)
                .map_err(|e| e.to_string()),
        ),
        Ev::Paste(text, _) => Ret::Pasted(
            ed.paste(text.clone(), pasted_type(text))
                .map_err(|e| e.to_string()),
        ),
        Ev::AcOpen => Ret::Flag(ed.open_autocomplete().is_some()),
        Ev::AcFinish(accept) => Ret::Flag(ed.finish_autocomplete(*accept).is_some()),
        Ev::AcMove(up) => Ret::Flag(
            ed.move_in_autocomplete(if *up {
                VerticalDirection::Up
            } else {
                VerticalDirection::Down
            })
            .is_some(),
        ),
        Ev::Splice(path, a, b, values) => {
            ed.splice_at_range(
                MinimalInputRowRange {
                    row_indices: real::path_to_real(path),
                    start: input_tree::row::Offset(*a),
                    end: input_tree::row::Offset(*b),
                },
                real::nodes_to_real(values),
            );
            Ret::Nothing
        }
        Ev::Focus(on) => {
            if *on {
                ed.focus()
            } else {
                ed.unfocus()
            }
            Ret::Nothing
        }
    })
}

/// Some pages say what they paste, some leave it to the editor to find out.
fn pasted_type(text: &str) -> Option<SerializedDataType> {
    (text.len() % 3 != 0).then_some(SerializedDataType::JsonInputTree)
}

/// The selection an editor reports.
pub fn reported(ed: &MathEditor) -> Result<Vec<Sel>, Panicked> {
    guard(|| {
        ed.get_caret()
            .iter()
            .map(|c| match c {
                MinimalCaretSelection::Row(r) => Sel::Row {
                    path: real::path_from_real(&r.row_indices),
                    start: r.start.0,
                    end: r.end.0,
                },
                MinimalCaretSelection::Grid(g) => {
                    let rect = serde_json::to_value(g.range).unwrap_or_default();
                    let n = |k: &str| rect.get(k).and_then(|v| v.as_u64()).unwrap_or(0) as usize;
                    Sel::Grid {
                        path: real::path_from_real(&g.row_indices),
                        idx: g.index,
                        start: n("start"),
                        end: n("end"),
                        width: n("width"),
                    }
                }
            })
            .collect()
    })
}

/// Everything that can be seen of an editor without changing it, as a hash.
pub fn visible(ed: &MathEditor, ret: &Ret) -> u64 {
    let doc = real::row_from_real(ed.get_input_tree())
        .map(|d| treekit::hash_row(&d))
        .unwrap_or(1);
    let sel = match reported(ed) {
        Ok(s) => hash_str(&format!("{s:?}")),
        Err(p) => hash_str(&p.message),
    };
    mix(&[doc, sel, hash_str(&format!("{ret:?}"))])
}

/// An autocomplete offer as reported: rule text, result, matched bytes, matched symbols.
pub type Offered = (String, Vec<MNode>, usize, usize);

pub fn read_offers(ed: &mut MathEditor) -> Result<Option<(usize, Vec<Offered>, P)>, Panicked> {
    guard(|| {
        ed.get_autocomplete().map(|a| {
            let (i, list, p) = a.destructure();
            (
                i,
                list.iter()
                    .map(|m| {
                        (
                            m.rule.parser.clone(),
                            real::nodes_from_real(&m.rule.result).unwrap_or_default(),
                            m.rule_match_length,
                            m.input_match_length,
                        )
                    })
                    .collect(),
                (real::path_from_real(&p.row_indices), p.offset.0),
            )
        })
    })
}

/// Far beyond what any row that is read here takes.
const MAX_PARSER_STEPS: u64 = 40_000_000;

pub fn read_tree(ed: &mut MathEditor) -> Result<String, Panicked> {
    chumsky::meter::start(MAX_PARSER_STEPS);
    let r = guard(|| serde_json::to_string(ed.get_syntax_tree()).unwrap_or_default());
    chumsky::meter::start(u64::MAX);
    r
}

/// The most brackets in a row of the document that are opened and not closed.
pub fn unclosed(doc: &MRow) -> usize {
    let mut here: usize = 0;
    let mut inner = 0;
    let mut quoted = false;
    let mut all = 0;
    for n in doc {
        match n {
            MNode::Sym(s) if s == "(" => {
                here += 1;
                all += 1;
            }
            MNode::Sym(s) if s == ")" => here = here.saturating_sub(1),
            MNode::Sym(s) => quoted |= s == "\"",
            MNode::Box(_, _, cells) => {
                inner = cells.iter().map(unclosed).max().unwrap_or(0).max(inner);
            }
        }
    }
    // what looks closed may be part of a string
    inner.max(if quoted { all } else { here })
}

fn opening(doc: &MRow) -> usize {
    doc.iter()
        .map(|n| match n {
            MNode::Sym(s) => (s == "(") as usize,
            MNode::Box(_, _, cells) => cells.iter().map(opening).sum(),
        })
        .sum()
}

/// Unclosed brackets take the parser exponential time, and so do closed ones
/// (and constructs) behind operators that bind more tightly than they do.
pub fn parseable(doc: &MRow, lang: &Built) -> bool {
    treekit::size(doc) < 1200
        && if lang.grammar.tight() {
            opening(doc) + treekit::depth(doc) <= 5
        } else {
            unclosed(doc) <= 4 && opening(doc) <= 40
        }
}

fn show_sel(s: &Sel) -> String {
    match s {
        Sel::Row { path, start, end } => format!("{path:?} {start}..{end}"),
        Sel::Grid {
            path,
            idx,
            start,
            end,
            width,
        } => format!("table {path:?}#{idx} cells {start}..{end} (width {width})"),
    }
}

/// Whether a reported selection addresses existing places.
fn exists(doc: &MRow, s: &Sel) -> bool {
    match s {
        Sel::Row { path, start, end } => row_at(doc, path)
            .map(|r| *start <= r.len() && *end <= r.len())
            .unwrap_or(false),
        Sel::Grid {
            path,
            idx,
            start,
            end,
            width,
        } => match row_at(doc, path).and_then(|r| r.get(*idx)) {
            Some(MNode::Box(treekit::Kind::Table, w, cells)) => {
                w == width && start < end && *end <= cells.len()
            }
            _ => false,
        },
    }
}

/// A concrete event or reading, as it happened; kept to replay an editor alone.
#[derive(Clone, Debug)]
pub enum Act {
    Ev(Ev),
    Offers,
    Tree,
}

pub struct Session {
    pub ed: MathEditor,
    pub m: Model,
    pub acts: Vec<(Act, u64)>,
    /// what happened last, for attributing a wrong undo
    last_paste_refused: bool,
    /// the model was brought back in step with the real editor after a
    /// deviation that belongs to another property
    pub resynced: u64,
    pub keep_acts: bool,
    /// reads the syntax tree of costly documents too
    pub reads_anything: bool,
}

fn op_name(ev: &Ev) -> &'static str {
    match ev {
        Ev::Type(_) => "op.type",
        Ev::Move(_) => "op.move",
        Ev::Select(_) => "op.select",
        Ev::Remove(_) => "op.remove",
        Ev::SelectAll => "op.select_all",
        Ev::Undo => "op.undo",
        Ev::Redo => "op.redo",
        Ev::Start(..) => "op.pointer_down",
        Ev::Extend(_) => "op.pointer_drag",
        Ev::Finish => "op.pointer_up",
        Ev::Copy => "op.copy",
        Ev::Paste(..) => "op.paste",
        Ev::AcOpen => "op.autocomplete_open",
        Ev::AcFinish(true) => "op.autocomplete_accept",
        Ev::AcFinish(false) => "op.autocomplete_reject",
        Ev::AcMove(_) => "op.autocomplete_navigate",
        Ev::Splice(..) => "op.splice",
        Ev::Focus(_) => "op.focus",
    }
}

/// The properties that say what an event does.
fn props_of(ev: &Ev) -> Vec<&'static str> {
    match ev {
        Ev::Type(_) | Ev::Remove(_) | Ev::Splice(..) => vec!["C10"],
        Ev::Move(_) => vec!["C15", "C10"],
        Ev::Select(_) | Ev::Start(..) | Ev::Extend(_) | Ev::SelectAll => vec!["C10"],
        Ev::Undo | Ev::Redo => vec!["C08"],
        Ev::Copy | Ev::Paste(..) => vec!["C11"],
        Ev::AcOpen | Ev::AcFinish(_) | Ev::AcMove(_) => vec!["C13"],
        Ev::Finish | Ev::Focus(_) => vec!["C10"],
    }
}

impl Session {
    pub fn new(parser: Rc<MathParser>, m: Model) -> Session {
        Session {
            ed: MathEditor::new(parser),
            m,
            acts: vec![],
            last_paste_refused: false,
            resynced: 0,
            keep_acts: false,
            reads_anything: false,
        }
    }

    /// Brings the model in step with what the real editor shows.
    fn resync(&mut self, ctx: &mut Ctx, why: &str) -> Result<(), Stop> {
        ctx.count("run.resynced");
        self.resynced += 1;
        if self.resynced > 6 {
            return Err(Stop::Foreign(why.to_string()));
        }
        let doc = real::row_from_real(self.ed.get_input_tree())
            .map_err(|e| Stop::Foreign(format!("{why}; {e}")))?;
        let sel = reported(&self.ed).map_err(|p| Stop::Foreign(p.message))?;
        let changed = doc != *self.m.doc;
        if !changed && sel == vec![self.m.sel()] {
            return Ok(());
        }
        self.m.doc = Rc::new(doc);
        match sel.first() {
            Some(s) if exists(&self.m.doc, s) => match s {
                Sel::Row { path, start, end } => {
                    self.m.start = (path.clone(), *start);
                    self.m.end = (path.clone(), *end);
                }
                Sel::Grid {
                    path,
                    idx,
                    start,
                    end,
                    ..
                } => {
                    let cell = |c: usize| {
                        let mut p = path.clone();
                        p.push((*idx, c));
                        (p, 0)
                    };
                    self.m.start = cell(*start);
                    self.m.end = cell(*end - 1);
                }
            },
            _ => return Err(Stop::Foreign(why.to_string())),
        }
        self.m.raw_known = false;
        if changed {
            if let Some(e) = self.m.undo.last_mut() {
                e.after = self.m.doc.clone();
                e.caret_after = (self.m.start.clone(), self.m.end.clone());
            }
        }
        Ok(())
    }

    /// A deviation: reported when one of `props` is the checked property,
    /// otherwise the model follows the real editor.
    fn deviate(
        &mut self,
        ctx: &mut Ctx,
        props: &[&str],
        sig: &str,
        msg: String,
    ) -> Result<(), Stop> {
        if props.contains(&ctx.prop.as_str()) {
            ctx.fail(sig, msg.clone())?;
        } else {
            ctx.event(format_args!("deviation of another property: {sig}: {msg}"));
        }
        self.resync(ctx, &msg)
    }

    /// Sends one event and compares.
    pub fn event(&mut self, ctx: &mut Ctx, ev: &Ev) -> Result<Ret, Stop> {
        let before_doc = self.m.doc.clone();
        let before_sel = self.m.sel();
        let grid = before_sel.is_grid()
            && matches!(
                ev,
                Ev::Type(_) | Ev::Remove(_) | Ev::Copy | Ev::Paste(..) | Ev::Select(_)
            );
        if grid && ctx.prop != "C09" {
            ctx.count("probe.table_selection_not_acted_on");
            return Ok(Ret::Nothing);
        }
        ctx.count(op_name(ev));
        let known_raw = self.m.raw_known || !matches!(ev, Ev::Extend(_));
        let res = send(&mut self.ed, ev);
        let ret = match res {
            Ok(r) => r,
            Err(p) => {
                if grid && p.message.contains("not yet implemented") {
                    ctx.fail(
                        "table-selection-not-implemented",
                        format!(
                            "{} while cells of a table are selected: {} ({})",
                            op_name(ev),
                            p.message,
                            p.location
                        ),
                    )?;
                    return Ok(Ret::Nothing);
                }
                let mut props = vec!["C09"];
                props.extend(match ev {
                    Ev::Move(_) => vec!["C15"],
                    Ev::Select(_) | Ev::Start(..) | Ev::Extend(_) | Ev::SelectAll => vec![],
                    _ => props_of(ev),
                });
                let known = match ev {
                    Ev::Paste(_, nodes) => nodes.clone(),
                    _ => None,
                };
                let d = self.m.clone().exec(ev, known);
                if d.pending {
                    props.push("C13");
                }
                if let Some(why) = d.walked {
                    props.extend(walk_props(why));
                }
                ctx.unexpected_panic(&props, op_name(ev), &p)?;
                return Err(Stop::Foreign(p.message));
            }
        };
        ctx.event(format_args!("{ev:?} -> {ret:?}"));
        if grid {
            // somebody implemented it: follow
            self.resync(ctx, "acting on a table selection")?;
            return Ok(ret);
        }
        // what the clipboard text turned into
        let mut pasted = None;
        if let (Ev::Paste(text, intact), Ret::Pasted(res)) = (ev, &ret) {
            match res {
                Ok(()) => {
                    pasted = match intact {
                        Some(nodes) => Some(nodes.clone()),
                        None => Some(self.inserted(ctx, &before_doc, &before_sel, text)?),
                    };
                }
                Err(e) => {
                    ctx.count("probe.paste_refused");
                    if intact.is_some() {
                        let deep = intact.as_ref().map(treekit::depth).unwrap_or(0);
                        let sig = if deep > MAX_LOADABLE {
                            "deeply-nested-copy-not-pasteable"
                        } else {
                            "copied-content-refused"
                        };
                        ctx.fail_for(
                            &["C11"],
                            sig,
                            format!("pasting what was copied was refused: {e}"),
                        )?;
                    }
                }
            }
        }
        let refused = matches!(ret, Ret::Pasted(Err(_)));
        let did = self.m.exec(ev, pasted);
        if did.corrected {
            ctx.count("probe.autocorrected");
        }
        if did.flattened {
            ctx.count("probe.construct_dissolved");
        }
        if did.removed_box {
            ctx.count("probe.empty_construct_removed");
        }
        if did.pushed > 0 {
            ctx.count("probe.undoable_change");
        }
        if did.walked.is_some() {
            ctx.count("probe.history_walked");
        }
        // who answers for a deviation
        let mut props = props_of(ev);
        if did.pending || did.corrected {
            props.push("C13");
        }
        if let Some(why) = did.walked {
            props.extend(walk_props(why));
        }
        if matches!(ev, Ev::Undo | Ev::Redo) && self.last_paste_refused {
            props.push("C11");
        }
        if !matches!(ev, Ev::Finish | Ev::Focus(_) | Ev::Copy) {
            self.last_paste_refused = refused;
        }
        self.compare(ctx, ev, &did, &props, refused, known_raw, &before_doc)?;
        if let (Ev::Copy, Ret::Copied(c)) = (ev, &ret) {
            self.copied(ctx, c)?;
        }
        if self.keep_acts {
            let h = visible(&self.ed, &ret);
            self.acts.push((Act::Ev(ev.clone()), h));
        }
        ctx.state(mix(&[
            treekit::hash_row(&self.m.doc),
            hash_str(&format!("{:?}", self.m.sel())),
            self.m.undo.len() as u64,
            self.m.redo.len() as u64,
        ]));
        Ok(ret)
    }

    #[allow(clippy::too_many_arguments)]
    fn compare(
        &mut self,
        ctx: &mut Ctx,
        ev: &Ev,
        did: &Did,
        props: &[&str],
        refused: bool,
        known_raw: bool,
        before: &Rc<MRow>,
    ) -> Result<(), Stop> {
        ctx.count("oracle.after_event");
        let name = &op_name(ev)[3..];
        let doc_now = match real::row_from_real(self.ed.get_input_tree()) {
            Ok(d) => d,
            Err(e) => {
                let mut p = vec!["C09", "C11"];
                p.extend(props);
                ctx.fail_for(
                    &p,
                    "document-not-well-formed",
                    format!("after {name} the document is not well-formed: {e}"),
                )?;
                return Err(Stop::Foreign(e));
            }
        };
        let sels = match reported(&self.ed) {
            Ok(s) => s,
            Err(p) => {
                let mut q = vec!["C09"];
                q.extend(props);
                ctx.unexpected_panic(&q, "reading_the_caret", &p)?;
                return Err(Stop::Foreign(p.message));
            }
        };
        if sels.len() != 1 || !exists(&doc_now, &sels[0]) {
            ctx.fail_for(
                &["C09"],
                "caret-outside-document",
                format!(
                    "after {name} the reported caret {:?} does not exist in {}",
                    sels,
                    treekit::show(&doc_now)
                ),
            )?;
            return Err(Stop::Foreign("caret outside the document".into()));
        }
        if doc_now != *self.m.doc {
            let d = real::diff(self.ed.get_input_tree(), &self.m.doc).unwrap_or_default();
            let sig = if refused {
                "refused-paste-changed-document".to_string()
            } else {
                format!("document-after-{name}")
            };
            let msg = format!(
                "after {name}: {d}; before {}, is {}, expected {}",
                treekit::show(before),
                treekit::show(&doc_now),
                treekit::show(&self.m.doc)
            );
            // an event that never touches the document
            let mut p = props.to_vec();
            if matches!(ev, Ev::Copy | Ev::AcOpen | Ev::AcMove(_)) {
                p.push("C10");
            }
            if ctx.is("C08") && !p.contains(&"C08") && (did.pending || did.pushed != 1) {
                // it is not known how many changes the real history holds
                return Err(Stop::Foreign(msg));
            }
            return self.deviate(ctx, &p, &sig, msg);
        }
        let want = self.m.sel();
        if sels[0] != want {
            let mut p: Vec<&str> = match ev {
                Ev::Select(_) | Ev::Start(..) | Ev::Extend(_) | Ev::SelectAll => vec!["C09"],
                Ev::Move(_) => vec!["C15"],
                _ => props.to_vec(),
            };
            if did.corrected {
                p = vec!["C13"];
            }
            if refused {
                p = vec!["C11"];
            }
            if !known_raw || !self.m.raw_known {
                p.clear();
            }
            let msg = format!(
                "after {name} the caret is {}, expected {} in {}",
                show_sel(&sels[0]),
                show_sel(&want),
                treekit::show(&doc_now)
            );
            return self.deviate(ctx, &p, &format!("caret-after-{name}"), msg);
        }
        if ctx.is("C09") && sels[0].is_grid() {
            ctx.count("probe.table_selected");
        }
        Ok(())
    }

    /// What a paste of unknown text inserted: read from the document around
    /// the caret's old surroundings.
    fn inserted(
        &mut self,
        ctx: &mut Ctx,
        before: &Rc<MRow>,
        sel: &Sel,
        text: &str,
    ) -> Result<Vec<MNode>, Stop> {
        ctx.count("probe.odd_clipboard_accepted");
        let now = match real::row_from_real(self.ed.get_input_tree()) {
            Ok(d) => d,
            Err(e) => {
                ctx.fail_for(
                    &["C11", "C09"],
                    "pasted-content-not-well-formed",
                    format!("pasting {text:?} left a document that is not well-formed: {e}"),
                )?;
                return Err(Stop::Foreign(e));
            }
        };
        let Sel::Row { path, start, end } = sel else {
            return Ok(vec![]);
        };
        let (a, b) = (*start.min(end), *start.max(end));
        let old = row_at(before, path).unwrap();
        let found = row_at(&now, path).and_then(|r| {
            let tail = old.len() - b;
            (r.len() >= a + tail).then(|| r[a..r.len() - tail].to_vec())
        });
        match found {
            Some(nodes) => {
                // what the text says, when it can be read at all
                if let Some(want) = crate::clip::decode(text) {
                    if want != nodes {
                        ctx.fail_for(
                            &["C11"],
                            "pasted-something-else",
                            format!(
                                "pasting {text:?} inserted {}, expected {}",
                                treekit::show(&nodes),
                                treekit::show(&want)
                            ),
                        )?;
                    }
                }
                Ok(nodes)
            }
            // the comparison that follows reports it
            None => Ok(vec![]),
        }
    }

    fn copied(&mut self, ctx: &mut Ctx, c: &Result<String, String>) -> Result<(), Stop> {
        ctx.count("oracle.copied");
        let Sel::Row { path, start, end } = self.m.sel() else {
            return Ok(());
        };
        let want = &row_at(&self.m.doc, &path).unwrap()[start.min(end)..start.max(end)];
        match c {
            Err(e) => ctx.fail_for(&["C11"], "copy-refused", format!("copying was refused: {e}")),
            Ok(_) if treekit::depth(&want.to_vec()) > MAX_LOADABLE => Ok(()),
            Ok(text) => {
                let got = crate::clip::decode(text);
                if got.as_deref() != Some(want) {
                    return ctx.fail_for(
                        &["C11"],
                        "copied-something-else",
                        format!("copying {} wrote {text:?}", treekit::show(&want.to_vec())),
                    );
                }
                Ok(())
            }
        }
    }

    /// Reads the autocomplete popup.
    pub fn offers(&mut self, ctx: &mut Ctx) -> Result<(), Stop> {
        ctx.count("op.read_autocomplete");
        let got = match read_offers(&mut self.ed) {
            Ok(o) => o,
            Err(p) => {
                ctx.unexpected_panic(&["C09", "C13"], "reading_autocomplete", &p)?;
                return Err(Stop::Foreign(p.message));
            }
        };
        let want = self.m.autocomplete().map(|(i, list, p)| {
            let l: Vec<Offered> = list
                .into_iter()
                .map(|o| (o.rule.text, o.rule.result, o.rule_len, o.symbols))
                .collect();
            (i, l, p)
        });
        ctx.event(format_args!("offers {got:?}"));
        if self.keep_acts {
            self.acts
                .push((Act::Offers, hash_str(&format!("{got:?}"))));
        }
        if got.is_some() {
            ctx.count("probe.offers_shown");
        }
        if got.as_ref().map(|g| g.1.len() > 1).unwrap_or(false) {
            ctx.count("probe.several_offers");
        }
        if got != want {
            let msg = format!(
                "offers {:?} at {}, expected {:?} in {}",
                got,
                show_sel(&self.m.sel()),
                want,
                treekit::show(&self.m.doc)
            );
            if let Some((i, l, _)) = &got {
                let (t, r, _, _) = &l[*i];
                self.m.remembered = Some(crate::rules::Rule {
                    text: t.clone(),
                    result: r.clone(),
                });
            } else {
                self.m.remembered = None;
            }
            return self.deviate(ctx, &["C13"], "offers", msg);
        }
        self.unchanged(ctx, "reading_autocomplete", &["C10"])
    }

    /// Reads the syntax tree and looks at what it says.
    pub fn tree(&mut self, ctx: &mut Ctx, lang: &Built) -> Result<(), Stop> {
        if !self.reads_anything && !parseable(&self.m.doc, lang) {
            ctx.count("probe.document_too_costly_to_parse");
            return Ok(());
        }
        ctx.count("op.read_syntax_tree");
        let got = match read_tree(&mut self.ed) {
            Ok(t) => t,
            Err(p) if p.message.contains(chumsky::meter::EXCEEDED) => {
                let sig = if unclosed(&self.m.doc) > 4 {
                    "unclosed-brackets-take-exponential-time"
                } else {
                    "no-tree-in-time"
                };
                ctx.fail_for(&["C16"], sig, format!(
                    "no syntax tree after {MAX_PARSER_STEPS} parser steps for {}",
                    treekit::show(&self.m.doc)
                ))?;
                return Err(Stop::Foreign(p.message));
            }
            Err(p) => {
                ctx.unexpected_panic(&["C09", "C12", "C16"], "reading_the_syntax_tree", &p)?;
                return Err(Stop::Foreign(p.message));
            }
        };
        if self.keep_acts {
            self.acts.push((Act::Tree, hash_str(&got)));
        }
        ctx.event(format_args!("tree of {} bytes", got.len()));
        if ctx.is("C12") {
            ctx.count("oracle.fresh_parse");
            let row = self.ed.get_input_tree().clone();
            let want = match guard(|| {
                serde_json::to_string(&lang.parser.parse(&row.values)).unwrap_or_default()
            }) {
                Ok(t) => t,
                Err(p) => return Err(Stop::Foreign(p.message)),
            };
            if got != want {
                ctx.fail(
                    "syntax-tree-of-another-document",
                    format!(
                        "the syntax tree is not the parse of the current document {}",
                        treekit::show(&self.m.doc)
                    ),
                )?;
            }
            let again = read_tree(&mut self.ed).unwrap_or_default();
            if again != got {
                ctx.fail("second-reading-differs", "reading the syntax tree twice gave two trees".into())?;
            }
        }
        if ctx.is("C16") || ctx.is("C17") {
            let tree = guard(|| syntax::read(self.ed.get_syntax_tree(), &lang.names))
                .map_err(|p| Stop::Foreign(p.message))?;
            ctx.state(hash_str(&format!("{tree:?}")));
            // a deviation of the document itself belongs to other properties
            let doc = real::row_from_real(self.ed.get_input_tree()).map_err(Stop::Foreign)?;
            if ctx.is("C16") {
                ctx.count("oracle.covering");
                if let Some(name) = &lang.misnamed {
                    ctx.fail("name-lost", format!("the number of rule {name} does not lead back to its name"))?;
                }
                if let Some((sig, msg)) = syntax::covers(&tree, &doc) {
                    ctx.fail(sig, msg)?;
                }
            } else {
                self.grouping(ctx, lang, &doc, &tree)?;
            }
        }
        self.unchanged(ctx, "reading_the_syntax_tree", &["C12", "C10"])
    }

    fn grouping(&mut self, ctx: &mut Ctx, lang: &Built, doc: &MRow, tree: &syntax::Tree) -> Result<(), Stop> {
        let got = syntax::plain(tree);
        match lang.grammar.reading(doc) {
            Some(want) => {
                ctx.count("oracle.grouping");
                if got != want {
                    ctx.fail(
                        "grouped-otherwise",
                        format!("{} is read as {got}, expected {want}", treekit::show(doc)),
                    )?;
                }
            }
            None => {
                ctx.count("probe.row_with_unreadable_parts");
                if let Some(want) = lang.loose.reading(doc) {
                    ctx.count("oracle.tokens");
                    if got.tokens() != want.tokens() {
                        ctx.fail(
                            "tokens-read-otherwise",
                            format!("{} is read as {:?}, expected {:?}", treekit::show(doc), got.tokens(), want.tokens()),
                        )?;
                    }
                }
                // the constructs in it are still read one by one
                let mut stack = vec![(tree, doc)];
                while let Some((t, row)) = stack.pop() {
                    match &t.part {
                        syntax::Part::Leaf(_) => {}
                        syntax::Part::Children(c) => stack.extend(c.iter().map(|c| (c, row))),
                        syntax::Part::Rows(_, cells) => {
                            let Some(MNode::Box(_, _, rows)) = row.get(t.start) else {
                                continue;
                            };
                            for (c, r) in cells.iter().zip(rows) {
                                match lang.grammar.reading(r) {
                                    Some(want) => {
                                        ctx.count("oracle.grouping_of_a_cell");
                                        let got = syntax::plain(c);
                                        if got != want {
                                            ctx.fail(
                                                "grouped-otherwise",
                                                format!("the cell {} is read as {got}, expected {want}", treekit::show(r)),
                                            )?;
                                        }
                                    }
                                    None => stack.push((c, r)),
                                }
                            }
                        }
                    }
                }
            }
        }
        Ok(())
    }

    fn unchanged(&mut self, ctx: &mut Ctx, what: &str, props: &[&str]) -> Result<(), Stop> {
        if let Some(d) = real::diff(self.ed.get_input_tree(), &self.m.doc) {
            let msg = format!("{what} changed the document: {d}");
            return self.deviate(ctx, props, &format!("{what}-changed-document"), msg);
        }
        match reported(&self.ed) {
            Ok(s) if s == vec![self.m.sel()] => Ok(()),
            Ok(s) => {
                let msg = format!("{what} moved the caret to {s:?}");
                self.deviate(ctx, props, &format!("{what}-moved-caret"), msg)
            }
            Err(p) => {
                ctx.unexpected_panic(&["C09"], "reading_the_caret", &p)?;
                Err(Stop::Foreign(p.message))
            }
        }
    }
}

fn walk_props(why: Why) -> Vec<&'static str> {
    match why {
        Why::Auto => vec!["C13"],
        Why::Pasted => vec!["C11"],
        _ => vec![],
    }
}
