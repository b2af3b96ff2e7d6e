//! C06: saving to and loading from a simulated disk.
use crate::common::*;
use input_tree::{
    editing::editable::Editable,
    editing::invertible::Invertible,
    focus::{InputRowPosition, MinimalInputGridRange, MinimalInputRowPosition, MinimalInputRowRange},
    grid::GridRectangle,
    input_tree::InputTree,
    node::InputNode,
    row::{InputRow, RowIndices},
};
use kernel::{guard, Ctx, Plan, Rng, Step, Stop};
use serde_json::Value;
use std::io::{self, Read, Write};
use treekit::{codec, gen, real, MRow};

pub fn generate(thorough: bool, rng: &mut Rng) -> Plan {
    let mut plan = Plan::default();
    gen::swarm_shape(rng, &mut plan);
    let grid = [0, 150, 400][rng.usize(3)];
    plan.cfg
        .insert("sector".into(), *rng.pick(&[1, 4, 16, 64, 512]));
    let short = [0, 300][rng.usize(2)];
    let damage = [0, 20, 40][rng.usize(3)];
    let (low, high) = if thorough { (6, 60) } else { (4, 28) };
    let len = run_length(rng, &mut plan, 0, low, high);
    for _ in 0..len {
        let io = |rng: &mut Rng| if rng.permille(short) { 1 + rng.below(3) } else { 0 };
        let s = match rng.weighted(&[25, 25, 14, 12, 10, damage, damage, 8]) {
            0 => {
                let mut a = vec![];
                for _ in 0..1 + rng.skewed(3) {
                    draw_edit(rng, grid, &mut a);
                }
                Step::new("edit", a)
            }
            // [write behaviour, seed, read behaviour]
            1 => Step::new("save", vec![io(rng), rng.below(1 << 30), io(rng)]),
            // [crash point, what the disk keeps, seed]
            2 => Step::new("crash_in_save", vec![rng.below(4000), rng.below(3), rng.below(1 << 30)]),
            3 => Step::new("truncate", vec![rng.below(4000), rng.below(8)]),
            4 => Step::new("foreign", vec![rng.below(1 << 30), rng.below(4)]),
            5 => Step::new("flip", vec![rng.below(1 << 30), 1 + rng.below(3), rng.below(6)]),
            6 => Step::new("mutate", vec![rng.below(1 << 30), rng.below(12), rng.below(64), rng.below(6)]),
            _ => Step::new("place", vec![rng.below(4000), place_in(rng), rng.below(3), rng.below(1 << 50)]),
        };
        plan.steps.push(s);
    }
    plan
}

/// A file handle with faults: short and interrupted calls, errors.
struct SimFile<'a> {
    data: &'a mut Vec<u8>,
    at: usize,
    mode: u64,
    rng: Rng,
    fail_at: Option<usize>,
    faults: u64,
}

impl SimFile<'_> {
    fn amount(&mut self, want: usize) -> io::Result<usize> {
        if want == 0 {
            return Ok(0);
        }
        match self.mode {
            0 => Ok(want),
            1 => {
                self.faults += 1;
                Ok(1 + self.rng.usize(want))
            }
            2 => {
                self.faults += 1;
                if self.rng.permille(400) {
                    return Err(io::ErrorKind::Interrupted.into());
                }
                Ok(1 + self.rng.usize(want.min(7)))
            }
            _ => {
                if self.rng.permille(100) {
                    self.faults += 1;
                    return Err(io::ErrorKind::Interrupted.into());
                }
                Ok(want)
            }
        }
    }
}
impl Write for SimFile<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut n = self.amount(buf.len())?;
        if let Some(f) = self.fail_at {
            if self.data.len() >= f {
                self.faults += 1;
                return Err(io::Error::new(io::ErrorKind::Other, "no space left on device"));
            }
            n = n.min(f - self.data.len());
        }
        self.data.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Read for SimFile<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let left = self.data.len() - self.at;
        let mut n = self.amount(buf.len().min(left))?;
        if let Some(f) = self.fail_at {
            if self.at >= f {
                self.faults += 1;
                return Err(io::Error::new(io::ErrorKind::Other, "input/output error"));
            }
            n = n.min(f - self.at);
        }
        buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

fn file(data: &mut Vec<u8>, mode: u64, seed: u64, fail_at: Option<usize>) -> SimFile<'_> {
    SimFile {
        data,
        at: 0,
        mode,
        rng: Rng::new(seed ^ 0xF11E),
        fail_at,
        faults: 0,
    }
}

/// What the session holds: a document, a caret and a selection.
struct S {
    tree: InputTree,
    doc: MRow,
    pos: MinimalInputRowPosition,
    range: MinimalInputRowRange,
    /// selected table cells: where, first cell, end, columns
    cells: (treekit::Path, usize, usize, usize, usize),
    /// the save files that are known to be complete
    disk: [Vec<u8>; KINDS],
    on_disk: Vec<MRow>,
}

impl S {
    fn cells(&self) -> MinimalInputGridRange {
        let (p, i, start, end, w) = &self.cells;
        MinimalInputGridRange {
            row_indices: real::path_to_real(p),
            index: *i,
            range: GridRectangle::new(*start..*end, *w),
        }
    }
}

const DOC: usize = 0;
const NODES: usize = 1;
const POS: usize = 2;
const RANGE: usize = 3;
const KINDS: usize = 5;

fn encode(ctx: &mut Ctx, s: &S, what: usize, f: &mut SimFile) -> Result<Result<(), String>, Stop> {
    let r = guard(|| {
        match what {
            DOC => serde_json::to_writer(f, &s.tree.root),
            NODES => serde_json::to_writer(f, &s.tree.root.values),
            POS => serde_json::to_writer(f, &s.pos),
            RANGE => serde_json::to_writer(f, &s.range),
            _ => serde_json::to_writer(f, &s.cells()),
        }
        .map_err(|e| e.to_string())
    });
    match r {
        Ok(r) => Ok(r),
        Err(p) => {
            ctx.unexpected_panic(&["C06"], "save", &p)?;
            Err(Stop::Violated)
        }
    }
}

enum Loaded {
    Doc(InputRow),
    Nodes(Vec<InputNode>),
    Pos(MinimalInputRowPosition),
    Range(MinimalInputRowRange),
    Cells(MinimalInputGridRange),
}

fn decode(ctx: &mut Ctx, what: usize, f: &mut SimFile) -> Result<Result<Loaded, String>, Stop> {
    // Loading a file as the application does: all of it must be one value.
    let r = guard(|| -> Result<Loaded, serde_json::Error> {
        Ok(match what {
            DOC => Loaded::Doc(serde_json::from_reader(f)?),
            NODES => Loaded::Nodes(serde_json::from_reader(f)?),
            POS => Loaded::Pos(serde_json::from_reader(f)?),
            RANGE => Loaded::Range(serde_json::from_reader(f)?),
            _ => Loaded::Cells(serde_json::from_reader(f)?),
        })
    });
    match r {
        Ok(r) => Ok(r.map_err(|e| e.to_string())),
        Err(p) => {
            ctx.unexpected_panic(&["C06"], "load", &p)?;
            Err(Stop::Violated)
        }
    }
}

fn expect_same(ctx: &mut Ctx, s: &S, doc: &MRow, l: &Loaded, how: &str) -> Result<(), Stop> {
    ctx.count("oracle.loaded_exactly");
    let d = match l {
        Loaded::Doc(r) => guard(|| real::diff(r, doc)).unwrap_or(Some("unreadable".into())),
        Loaded::Nodes(r) => {
            guard(|| real::diff_nodes(r, doc, &mut vec![])).unwrap_or(Some("unreadable".into()))
        }
        Loaded::Pos(p) => (*p != s.pos).then(|| format!("{p:?} instead of {:?}", s.pos)),
        Loaded::Range(p) => (*p != s.range).then(|| format!("{p:?} instead of {:?}", s.range)),
        Loaded::Cells(p) => (*p != s.cells()).then(|| format!("{p:?} instead of {:?}", s.cells())),
    };
    match d {
        None => Ok(()),
        Some(d) => ctx.fail("loaded-differs", format!("{how}: {d}")),
    }
}

/// A loaded value of unknown origin has to be usable.
fn usable(ctx: &mut Ctx, l: Loaded, shape: &gen::Shape, seed: u64) -> Result<(), Stop> {
    ctx.count("oracle.accepted_value_is_usable");
    let row = match l {
        Loaded::Doc(r) => r,
        Loaded::Nodes(n) => InputRow::new(n),
        // Any list of numbers is a position of some document.
        Loaded::Pos(_) | Loaded::Range(_) | Loaded::Cells(_) => return Ok(()),
    };
    ctx.count("probe.damaged_file_accepted");
    let fail = |ctx: &mut Ctx, what: &str, why: String| {
        ctx.fail(
            "accepted-but-unusable",
            format!("a damaged document was accepted, but {what}: {why}"),
        )
    };
    let model = match guard(|| real::row_from_real(&row)) {
        Ok(Ok(m)) => m,
        Ok(Err(e)) => return fail(ctx, "it is not well-formed", e),
        Err(p) => return fail(ctx, "it cannot be read", p.message),
    };
    // print
    match guard(|| row.to_string()) {
        Ok(_) => {}
        Err(p) => return fail(ctx, "it cannot be printed", p.message),
    }
    let mut tree = InputTree::new(row);
    // navigate: every row can be focused, every container entered
    let nav = guard(|| {
        for p in treekit::rows(&model) {
            let f = tree.root_focus().walk_down_indices(&real::path_to_real(&p));
            let n = f.len();
            let _ = InputRowPosition::new(f, input_tree::row::Offset(n));
        }
        for (p, i) in treekit::boxes(&model) {
            let f = tree.root_focus().walk_down_indices(&real::path_to_real(&p));
            if let Some(c) = f.child_at(i) {
                let _ = c.child_at(0).is_ok();
            }
        }
    });
    if let Err(p) = nav {
        return fail(ctx, "moving through it fails", p.message);
    }
    // edit
    let mut rng = Rng::new(seed);
    let mut m = model.clone();
    for _ in 0..4 {
        let mut a = vec![];
        draw_edit(&mut rng, 300, &mut a);
        let sane = treekit::tables(&m).iter().all(|t| t.2 < 1000);
        if !sane {
            a[0] %= 2;
        }
        let Some(e) = resolve_edit(&m, &a, shape) else {
            continue;
        };
        let before = m.clone();
        if treekit::apply(&mut m, &e).is_err() {
            continue;
        }
        let r = real::edit_to_real(&e);
        if let Err(p) = guard(|| tree.apply_edit(&r)) {
            return fail(ctx, "editing it fails", p.message);
        }
        if rng.permille(300) {
            if let Err(p) = guard(|| tree.apply_edit(&r.inverse())) {
                return fail(ctx, "undoing an edit fails", p.message);
            }
            m = before;
        }
    }
    Ok(())
}

fn json_of(ctx: &mut Ctx, bytes: &[u8]) -> Result<Value, Stop> {
    match serde_json::from_slice::<Value>(bytes) {
        Ok(v) => Ok(v),
        Err(e) => {
            ctx.fail("not-json", format!("the saved form is not JSON: {e}"))?;
            Err(Stop::Violated)
        }
    }
}

fn model_value(s: &S, what: usize) -> Value {
    match what {
        DOC => codec::row(&s.doc),
        NODES => Value::Array(s.doc.iter().map(codec::node).collect()),
        POS => codec::position(&real::path_from_real(&s.pos.row_indices), s.pos.offset.0),
        RANGE => codec::range(
            &real::path_from_real(&s.range.row_indices),
            s.range.start.0,
            s.range.end.0,
        ),
        _ => codec::cells(&s.cells.0, s.cells.1, s.cells.2, s.cells.3, s.cells.4),
    }
}

/// Writes `v` the way other programs might: key order, spacing, escapes.
fn write_foreign(v: &Value, rng: &mut Rng, style: u64, out: &mut String) {
    let space = |rng: &mut Rng, out: &mut String| {
        if style & 1 == 1 {
            for _ in 0..rng.below(3) {
                out.push(*rng.pick(&[' ', '\n', '\t']));
            }
        }
    };
    match v {
        Value::Array(a) => {
            out.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                space(rng, out);
                write_foreign(x, rng, style, out);
                space(rng, out);
            }
            out.push(']');
        }
        Value::Object(o) => {
            out.push('{');
            let mut keys: Vec<&String> = o.keys().collect();
            if rng.permille(500) {
                keys.reverse();
            }
            for (i, k) in keys.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                space(rng, out);
                out.push_str(&serde_json::to_string(k).unwrap());
                space(rng, out);
                out.push(':');
                space(rng, out);
                write_foreign(&o[*k], rng, style, out);
            }
            space(rng, out);
            out.push('}');
        }
        Value::String(s) if style & 2 == 2 => {
            out.push('"');
            for u in s.encode_utf16() {
                out.push_str(&format!("\\u{u:04x}"));
            }
            out.push('"');
        }
        other => out.push_str(&other.to_string()),
    }
}

/// Changes one spot of a JSON value (a file damaged or edited by something
/// else that is still JSON).
fn mutate(v: &mut Value, n: &mut u64, flavour: u64, x: u64) -> bool {
    // visit spots in order; the n-th one that the flavour applies to is changed
    let applies = match (&*v, flavour) {
        (Value::Number(_), 0 | 1 | 2) => true,
        (Value::Array(a), 3 | 5) => !a.is_empty(),
        (Value::Array(_), 4) => true,
        (Value::String(_), 6 | 7) => true,
        (Value::Object(_), 8 | 9 | 10) => true,
        (_, 11) => true,
        _ => false,
    };
    if applies {
        if *n == 0 {
            match (&mut *v, flavour) {
                (Value::Number(_), 0) => *v = [0u64, 1, 2, 3, 4, 7][x as usize % 6].into(),
                (Value::Number(_), 1) => {
                    *v = [u64::MAX, 1 << 63, 1 << 32, (1 << 53) + 1][x as usize % 4].into()
                }
                (Value::Number(_), 2) => *v = (-(x as i64) - 1).into(),
                (Value::Array(a), 3) => {
                    a.remove(x as usize % a.len());
                }
                (Value::Array(a), 4) => {
                    let y = a.first().cloned().unwrap_or(Value::Null);
                    a.push(y);
                }
                (Value::Array(a), 5) => a.clear(),
                (Value::String(s), 6) => s.push('x'),
                (Value::String(s), 7) => s.clear(),
                (Value::Object(o), 8) => {
                    let k: Vec<String> = o.keys().cloned().collect();
                    if !k.is_empty() {
                        o.remove(&k[x as usize % k.len()]);
                    }
                }
                (Value::Object(o), 9) => {
                    o.insert("extra".into(), Value::Null);
                }
                (Value::Object(o), 10) => {
                    let k: Vec<String> = o.keys().cloned().collect();
                    if !k.is_empty() {
                        let k = &k[x as usize % k.len()];
                        let y = o.remove(k).unwrap();
                        o.insert(format!("{k}_"), y);
                    }
                }
                _ => {
                    *v = [
                        Value::Null,
                        Value::Bool(true),
                        Value::String("x".into()),
                        0.into(),
                        Value::Array(vec![]),
                        Value::Object(Default::default()),
                    ][x as usize % 6]
                        .clone()
                }
            }
            return true;
        }
        *n -= 1;
    }
    match v {
        Value::Array(a) => a.iter_mut().any(|x2| mutate(x2, n, flavour, x)),
        Value::Object(o) => o.iter_mut().any(|(_, x2)| mutate(x2, n, flavour, x)),
        _ => false,
    }
}

fn save_all(ctx: &mut Ctx, s: &mut S, mode: u64, seed: u64) -> Result<(), Stop> {
    for what in 0..KINDS {
        let mut bytes = vec![];
        let mut f = file(&mut bytes, mode, seed.wrapping_add(what as u64), None);
        let r = encode(ctx, s, what, &mut f)?;
        if f.faults > 0 {
            ctx.count("fault.short_or_interrupted_write");
        }
        if let Err(e) = r {
            return ctx.fail("save-failed", format!("saving failed without a disk error: {e}"));
        }
        ctx.count("oracle.saved_form");
        let got = json_of(ctx, &bytes)?;
        let want = model_value(s, what);
        if got != want {
            return ctx.fail(
                "saved-form",
                format!("saved as {}, the established form is {}", brief(&got), brief(&want)),
            );
        }
        s.disk[what] = bytes;
    }
    s.on_disk = vec![s.doc.clone()];
    Ok(())
}

fn brief(v: &Value) -> String {
    let mut s = v.to_string();
    if s.len() > 400 {
        let mut n = 400;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        s.truncate(n);
        s.push('…');
    }
    s
}

pub fn run(plan: &Plan, ctx: &mut Ctx) -> Result<(), Stop> {
    let shape = gen::shape_from(plan);
    let doc = gen::initial_document(plan);
    let sector = plan.cfg("sector").max(1) as usize;
    let mut s = S {
        tree: InputTree::new(real::row_to_real(&doc)),
        doc: doc.clone(),
        pos: real::position(&[], 0),
        range: real::range(&[], 0, 0),
        cells: (vec![], 0, 0, 1, 1),
        disk: Default::default(),
        on_disk: vec![],
    };
    save_all(ctx, &mut s, 0, 0)?;
    for step in &plan.steps {
        ctx.now_us += 2000;
        let op: &str = &step.op;
        ctx.event(format_args!("step {op} {:?}", step.a));
        ctx.sched(op, step.arg(0));
        match op {
            "edit" => {
                for e in resolve_batch(&s.doc, step, 0, &shape) {
                    let r = real::edit_to_real(&e);
                    let mut m = s.doc.clone();
                    let _ = treekit::apply(&mut m, &e);
                    let t = &mut s.tree;
                    if let Err(p) = guard(|| t.apply_edit(&r)) {
                        return ctx.unexpected_panic(&[], "apply", &p);
                    }
                    if real::diff(&s.tree.root, &m).is_some() {
                        // not this property's business: go on from the described document
                        s.tree = InputTree::new(real::row_to_real(&m));
                    }
                    s.doc = m;
                    s.pos = real::position(&[], 0);
                    s.range = real::range(&[], 0, 0);
                }
                ctx.state(treekit::hash_row(&s.doc));
            }
            "place" => {
                let (p, o) = place(&s.doc, step.arg(0));
                let len = treekit::row_at(&s.doc, &p).unwrap().len() as u64;
                s.pos = real::position(&p, o);
                s.range = real::range(&p, o, (step.arg(1) % (len + 1)) as usize);
                let tables = treekit::tables(&s.doc);
                if !tables.is_empty() {
                    let (p, i, w, h) = tables[step.arg(0) as usize % tables.len()].clone();
                    let start = step.arg(1) as usize % (w * h).max(1);
                    let end = start + step.arg(3) as usize % (w * h + 1 - start.min(w * h));
                    s.cells = (p, i, start, end, w);
                    ctx.count("probe.table_cells_saved");
                }
                if step.arg(2) == 2 {
                    // a caret in some other, much larger document
                    let mut rng = Rng::new(step.arg(3));
                    let big = |rng: &mut Rng| {
                        let bits = rng.below(54);
                        rng.below(1 << bits) as usize
                    };
                    let p: Vec<(usize, usize)> =
                        (0..rng.below(6)).map(|_| (big(&mut rng), big(&mut rng))).collect();
                    let (a, b) = (big(&mut rng), big(&mut rng));
                    ctx.count("probe.large_numbers_saved");
                    s.pos = real::position(&p, a);
                    s.range = real::range(&p, a, b);
                }
            }
            "save" => {
                save_all(ctx, &mut s, step.arg(0) % 4, step.arg(1))?;
                // restart and load
                ctx.count("fault.crash_restart");
                ctx.nontrivial |= !s.doc.is_empty();
                for what in 0..KINDS {
                    let mut bytes = s.disk[what].clone();
                    let mut f = file(&mut bytes, step.arg(2) % 4, step.arg(1) ^ 0x5EED, None);
                    let r = decode(ctx, what, &mut f)?;
                    if f.faults > 0 {
                        ctx.count("fault.short_or_interrupted_read");
                    }
                    match r {
                        Err(e) => return ctx.fail("load-failed", format!("an intact save does not load: {e}")),
                        Ok(l) => {
                            expect_same(ctx, &s, &s.doc.clone(), &l, "after a restart")?;
                            if let Loaded::Doc(r) = l {
                                s.tree = InputTree::new(r);
                            }
                        }
                    }
                }
                // the disk fails while reading
                let at = step.arg(1) as usize % s.disk[DOC].len();
                let mut bytes = s.disk[DOC].clone();
                let mut f = file(&mut bytes, 0, 0, Some(at));
                ctx.count("fault.read_error");
                if decode(ctx, DOC, &mut f)?.is_ok() {
                    return ctx.fail(
                        "truncated-accepted",
                        format!("a document was loaded although reading failed at byte {at}"),
                    );
                }
            }
            "crash_in_save" => {
                // The new file is written over the old one when power fails.
                let mut new = vec![];
                let what = (step.arg(2) % KINDS as u64) as usize;
                let mut probe = vec![];
                let mut f = file(&mut probe, 0, 0, None);
                let _ = encode(ctx, &s, what, &mut f)?;
                let full = probe.len();
                let cut = step.arg(0) as usize % (full + 1);
                let mut f = file(&mut new, step.arg(2) % 3, step.arg(2), Some(cut));
                ctx.count("fault.write_error");
                let r = encode(ctx, &s, what, &mut f)?;
                if r.is_ok() && cut < full {
                    return ctx.fail(
                        "write-error-hidden",
                        format!("saving reported success although the disk was full after {cut} of {full} bytes"),
                    );
                }
                let old = s.disk[what].clone();
                let after = match step.arg(1) % 3 {
                    0 => {
                        ctx.count("fault.torn_write");
                        new.clone()
                    }
                    1 => {
                        // sectors of the full new file reach the disk in any order
                        ctx.count("fault.sectors_lost");
                        let mut rng = Rng::new(step.arg(2));
                        let mut out = vec![];
                        let mut i = 0;
                        while i < probe.len() {
                            let end = (i + sector).min(probe.len());
                            if rng.permille(500) {
                                out.extend_from_slice(&probe[i..end]);
                            } else {
                                let lo = i.min(old.len());
                                let hi = end.min(old.len());
                                out.extend_from_slice(&old[lo..hi]);
                                out.resize(end, 0);
                            }
                            i = end;
                        }
                        out
                    }
                    _ => {
                        // new prefix, old tail (the file was not truncated first)
                        ctx.count("fault.old_tail");
                        let mut out = new.clone();
                        if out.len() < old.len() {
                            out.extend_from_slice(&old[out.len()..]);
                        }
                        out
                    }
                };
                ctx.nontrivial = true;
                let mut bytes = after.clone();
                let mut f = file(&mut bytes, step.arg(2) % 3, 1, None);
                let l = decode(ctx, what, &mut f)?;
                let proper_prefix = after.len() < full && probe.starts_with(&after);
                match l {
                    Ok(_) if proper_prefix => {
                        return ctx.fail(
                            "truncated-accepted",
                            format!("{} of {full} bytes were accepted as a complete save", after.len()),
                        )
                    }
                    Ok(l) if after == probe => expect_same(ctx, &s, &s.doc.clone(), &l, "complete save")?,
                    Ok(l) => usable(ctx, l, &shape, step.arg(2))?,
                    Err(_) => ctx.count("probe.damaged_file_rejected"),
                }
            }
            "truncate" => {
                let what = (step.arg(1) % KINDS as u64) as usize;
                let full = s.disk[what].len();
                let cut = step.arg(0) as usize % full;
                ctx.count("fault.truncated_file");
                ctx.nontrivial = true;
                let mut bytes = s.disk[what][..cut].to_vec();
                let mut f = file(&mut bytes, 0, 0, None);
                if decode(ctx, what, &mut f)?.is_ok() {
                    return ctx.fail(
                        "truncated-accepted",
                        format!("{cut} of {full} bytes were accepted as a complete save"),
                    );
                }
            }
            "foreign" => {
                // the same content written by the front end or an earlier save
                ctx.count("op.foreign_save");
                ctx.nontrivial |= !s.doc.is_empty();
                for what in 0..KINDS {
                    let mut text = String::new();
                    let mut rng = Rng::new(step.arg(0));
                    write_foreign(&model_value(&s, what), &mut rng, step.arg(1), &mut text);
                    let mut bytes = text.into_bytes();
                    let mut f = file(&mut bytes, 0, 0, None);
                    match decode(ctx, what, &mut f)? {
                        Ok(l) => expect_same(ctx, &s, &s.doc.clone(), &l, "saved by another program")?,
                        Err(e) => {
                            return ctx.fail(
                                "foreign-save-rejected",
                                format!("a save in the established form does not load: {e}"),
                            )
                        }
                    }
                }
            }
            "flip" => {
                ctx.count("fault.bits_flipped");
                ctx.nontrivial = true;
                let what = (step.arg(2) % KINDS as u64) as usize;
                let mut bytes = s.disk[what].clone();
                let mut rng = Rng::new(step.arg(0));
                for _ in 0..step.arg(1).max(1) {
                    let i = rng.usize(bytes.len());
                    if rng.permille(500) {
                        bytes[i] ^= 1 << rng.below(8);
                    } else {
                        bytes[i] = *rng.pick(b"0123456789[]{},:\"-SCa");
                    }
                }
                let mut f = file(&mut bytes, 0, 0, None);
                match decode(ctx, what, &mut f)? {
                    Ok(l) => usable(ctx, l, &shape, step.arg(0))?,
                    Err(_) => ctx.count("probe.damaged_file_rejected"),
                }
            }
            "mutate" => {
                ctx.count("fault.value_damaged");
                ctx.nontrivial = true;
                let what = (step.arg(3) % KINDS as u64) as usize;
                let mut v = model_value(&s, what);
                let mut n = step.arg(2);
                let flavour = step.arg(1) % 12;
                if !mutate(&mut v, &mut n, flavour, step.arg(0)) {
                    let mut n = 0;
                    mutate(&mut v, &mut n, flavour, step.arg(0));
                }
                let mut bytes = v.to_string().into_bytes();
                let mut f = file(&mut bytes, 0, 0, None);
                match decode(ctx, what, &mut f)? {
                    Ok(l) => usable(ctx, l, &shape, step.arg(0))?,
                    Err(_) => ctx.count("probe.damaged_file_rejected"),
                }
            }
            _ => {}
        }
        ctx.event(format_args!("document {:016x}", treekit::hash_row(&s.doc)));
    }
    let _: Option<RowIndices> = None;
    Ok(())
}

pub fn fixed() -> Vec<(String, Plan)> {
    let mut v = vec![];
    for (name, mut plan) in gen::vast() {
        plan.steps.push(Step::new("place", vec![65_750, 65_760, 0, 0]));
        plan.steps.push(Step::new("save", vec![1, 1, 1]));
        v.push((name.into(), plan));
    }
    for flavour in 0..12u64 {
        for spot in 0..6u64 {
            let mut plan = Plan::default();
            for (k, x) in [
                ("alphabet", 0),
                ("boxes", 1000),
                ("tables", 500),
                ("max_depth", 1),
                ("max_cells", 4),
                ("doc_n", 2),
                ("doc_seed", 5),
                ("sector", 4),
            ] {
                plan.cfg.insert(k.into(), x);
            }
            for x in 0..6 {
                plan.steps
                    .push(Step::new("mutate", vec![x, flavour, spot, 0]));
            }
            plan.steps.push(Step::new("save", vec![0, 1, 0]));
            v.push((format!("mutation {flavour} at {spot}"), plan));
        }
    }
    v
}
