// A program that uses the page's programming interface directly: it composes
// parsers from rule modules, makes editors and calls them. Every bound object
// has a counterpart made of the core alone, which gets the same calls.
import { page, freshPage } from "./dom.mjs";
import { calls, call, Mirror, MathEditorBindings, MathParserBindings, ParseModuleCollectionBindings, ParseModulesBindings, ParseModulesCreator } from "./pkg.mjs";
import * as front from "front-end/core/index.ts";
import { size } from "./seen.mjs";
import { drawFormula } from "./formula.mjs";
import { Base, same, short, pick, TYPED, graphemes } from "./base.mjs";

const MODULES = ["core", "arithmetic", "calculus", "collections", "comparison", "function", "logic", "string"];
const HELPERS = {
  insert_at_caret: "insertAtCaret",
  paste: "paste",
  get_caret: "getCaret",
  get_autocomplete: "getAutocomplete",
  get_input_tree: "getInputTree",
  get_syntax_tree: "getSyntaxTree",
  splice_at_range: "spliceAtRange",
};
const SPACES = ["Own", "Core", "Arithmetic", "Logic", "Function", "Other", "own", "Ärger"];
const NAMES = ["Add", "add", "Subtract", "Own", "Variable", "Sum", "Or", "S", "S_1", "数"];
const DIRECTIONS = ["Left", "Right", "Up", "Down"];
const PASTED = ["hello", "[1,2]", '{"version":1}', "", "null", '{"version":1,"data":[{"Symbol":1}]}', '{"version":1,"data":[{"Container":["Fraction",{"values":[],"width":1}]}]}'];
const NO_SYMBOLS = [null, "abc", 7, [1, 2], ["a", null], { 0: "a" }, ["a", ["b"]], [{ Symbol: "a" }]];
const NO_NODES = [
  null,
  "x",
  [1],
  ["a"],
  [{}],
  [{ Symbol: 1 }],
  [{ Symbol: "a" }, { Nothing: "b" }],
  [{ Container: ["Matrix", { values: [{ values: [] }], width: 1 }] }],
  [{ Container: ["Fraction", { values: [{ values: [] }, { values: [] }] }] }],
  [{ Container: ["Table", { values: [{ values: [] }, { values: [] }, { values: [] }], width: 2 }] }],
  [{ Symbol: "ok" }, { Container: ["Sup", { values: [{ values: [{ Symbol: null }] }], width: 1 }] }],
];

class Draw {
  constructor(seed) {
    this.s = (seed * 2654435761 + 99991) >>> 0;
  }
  below(n) {
    this.s = (Math.imul(this.s ^ (this.s >>> 15), 0x2c1b3c6d) + 0x9e3779b9) >>> 0;
    const x = Math.imul(this.s ^ (this.s >>> 13), 0x297a2d39) >>> 0;
    return ((x ^ (x >>> 16)) >>> 0) % n;
  }
}
const nothing = (v) => (v === undefined ? null : v);
/** The result of a call: an answer or a refusal. */
function tried(f) {
  try {
    return { answer: nothing(f()) };
  } catch (err) {
    const m = String(err?.message ?? err);
    if (/core stopped|recursive use/.test(m)) return { stopped: m };
    return { refused: m };
  }
}
/** A syntax tree with names in place of numbers. */
function named(tree, names) {
  if (tree === null || typeof tree !== "object") return tree;
  const { name, range, children, ...more } = tree;
  const c = {};
  for (const [k, v] of Object.entries(children ?? {})) {
    if (k === "Children") c[k] = v.map((x) => named(x, names));
    else if (k === "NewRows") c[k] = { ...v, values: v.values.map((x) => named(x, names)) };
    else c[k] = v;
  }
  return { name: names.get(name) ?? `number ${name}`, range: [range?.start, range?.end], children: c, more };
}
function* rowsOf(nodes, path = []) {
  yield [path, nodes];
  for (const [i, n] of nodes.entries()) {
    if (n.Container) for (const [j, r] of n.Container[1].values.entries()) yield* rowsOf(r.values, [...path, [i, j]]);
  }
}

export class Api extends Base {
  constructor(plan) {
    super(plan);
    this.worlds = [];
    this.parsers = [];
    this.editors = [];
    this.clipboard = ['{"version":1,"data":[{"Symbol":"x"}]}'];
    this.made = [];
    this.helped = 0;
  }
  keep(o) {
    this.made.push(o);
    return o;
  }
  // Rule modules: those of the front end, and some of the program's own
  world(own) {
    const k = own ? 1 : 0;
    if (this.worlds[k]) return this.worlds[k];
    const bound = own ? this.keep(new ParseModulesBindings()) : front.ModulesCreator;
    const plain = call("plain.modules");
    const w = { own, bound, plain, known: new Set() };
    this.worlds[k] = w;
    if (!own) for (const m of MODULES) this.plainModule(w, m);
    return w;
  }
  plainModule(w, m) {
    w.known.add(m);
    return call("plain.make", w.plain, m);
  }
  boundModule(w, m) {
    return m === "built_in" ? w.bound.get_built_in() : ParseModulesCreator[`make_${m}`](w.bound);
  }
  compose(own, seed) {
    const d = new Draw(seed);
    const w = this.world(own);
    const list = [];
    if (d.below(3) === 0) list.push(...MODULES);
    else {
      const n = d.below(9);
      for (let i = 0; i < n; i++) list.push(d.below(12) === 0 ? "built_in" : MODULES[d.below(MODULES.length)]);
    }
    // Modules of the program's own, which disagree with the others
    while (d.below(3) === 0 && list.length < 12) list.splice(d.below(list.length + 1), 0, `own${d.below(2)}`);
    const plain = call("plain.parser", w.plain, list.map((m) => this.plainModule(w, m)));
    let bound;
    if (!own && d.below(2) && front.makeMathParserWith) {
      bound = front.makeMathParserWith(list.map((m) => this.boundModule(w, m)));
    } else {
      const early = d.below(2) ? list.map((m) => this.boundModule(w, m)) : null;
      const c = new ParseModuleCollectionBindings(w.bound);
      list.forEach((m, i) => c.add_module(early ? early[i] : this.boundModule(w, m)));
      bound = new MathParserBindings(c);
    }
    const p = { bound: this.keep(bound), plain, world: w, index: this.parsers.length, what: list.join(",") };
    this.parsers.push(p);
    return p;
  }
  editor(p) {
    const bound = this.keep(new MathEditorBindings(p.bound));
    const mirror = new Mirror(null, call("plain.editor", null, p.plain));
    const e = { bound, mirror, parser: p, index: this.editors.length };
    this.editors.push(e);
    return e;
  }
  names(w) {
    const take = (m) => {
      const out = new Map();
      for (const [id, path] of m.reverse_values) out.set(id, path.join("::"));
      return out;
    };
    const raw = w.bound.get_syntax_node_name_map();
    const bound = take(raw);
    const plain = take(call("plain.names", w.plain));
    if (raw.values.size !== bound.size) this.fail(["C23"], "names-differ", `${raw.values.size} names lead to ${bound.size} numbers`);
    for (const [path, id] of raw.values) {
      if (bound.get(id) !== path.join("::")) this.fail(["C23"], "names-differ", `the name ${path.join("::")} has the number ${id}, which leads to ${bound.get(id)}`);
    }
    const more = w.named ?? new Map();
    for (const [path, id] of more) if (plain.get(id) !== path) this.fail(["C23"], "name-lost", `the name ${path} had the number ${id}, which leads to ${plain.get(id)}`);
    const others = new Set([...more.keys()].filter((p) => ![...bound.values()].includes(p)));
    const [a, b] = [bound, plain].map((m) => [...m.values()].filter((p) => !others.has(p)).sort());
    if (!same(a, b)) this.fail(["C23"], "names-differ", `the modules ${[...w.known]} have the names ${short(a)}, not ${short(b)}`);
    this.count("check.names");
    return { bound, plain };
  }
  doc(e) {
    return e.mirror.get_input_tree().values;
  }
  /** Something done to both editors. */
  both(e, what, onPlain, onBound) {
    const want = tried(onPlain);
    if (want.stopped) this.fail([], "core-stopped", `${what}: ${want.stopped}`);
    const got = tried(onBound);
    if ("answer" in want ? !same(got, want) : !got.refused) {
      this.fail(["C23"], "answer-differs", `${what} in editor ${e.index} gave ${short(got)}, the core gives ${short(want)}`);
    }
    if (want.refused) this.count("fault.refused");
    return want;
  }
  step(e, what, f, ...args) {
    // Some of the calls are also offered by the front end under a name of its own
    const helper = HELPERS[f] && front.MathEditorHelper?.[HELPERS[f]];
    const onBound = helper && ++this.helped % 2 ? () => helper(e.bound, ...args) : () => e.bound[f](...args);
    return this.both(e, what, () => e.mirror[f](...args), onBound);
  }
  check(e, what, full) {
    for (const f of ["get_input_tree", "get_caret"]) this.step(e, `${what}, then ${f}`, f);
    if (!full) return;
    if (full & 1) this.step(e, `${what}, then get_autocomplete`, "get_autocomplete");
    if (full & 2) {
      const { bound, plain } = this.names(e.parser.world);
      const want = tried(() => e.mirror.get_syntax_tree());
      if (want.stopped) this.fail([], "core-stopped", want.stopped);
      const helper = full === 3 && front.MathEditorHelper?.getSyntaxTree;
      const got = tried(() => (helper ? helper(e.bound) : e.bound.get_syntax_tree()));
      if (got.stopped || !same(named(got.answer, bound), named(want.answer, plain))) {
        this.fail(["C23"], "tree-differs", `after ${what} the syntax tree of editor ${e.index} with the modules ${e.parser.what} is ${short(got.stopped ?? named(got.answer, bound))}, the core's is ${short(named(want.answer, plain))}`);
      }
      this.count("check.tree");
      if (front.getNodeWithRowIndices) this.rows(e, got.answer, what);
    }
  }
  rows(e, tree, what) {
    for (const [path, nodes] of rowsOf(this.doc(e))) {
      const found = tried(() => front.getNodeWithRowIndices(tree, path));
      let want = tree;
      for (const step of path) want = subtree(want, step);
      if (!found.answer || found.answer !== want) {
        this.fail(["C23"], "row-not-found", `after ${what} the row at ${short(path)} of ${short(this.doc(e))} was taken to be ${short(found.refused ?? found.answer)}, it is ${short(want)}`);
      }
      this.count("check.row_in_tree");
    }
  }
  async run() {
    freshPage();
    calls.length = 0;
    const d = new Draw(this.cfg.start ?? 0);
    const n = 1 + ((this.cfg.editors ?? 0) % 3);
    for (let k = 0; k < n; k++) {
      let p;
      if (d.below(3) === 0) {
        // The parser of the front end knows all modules, in this order
        const w = this.world(false);
        const plain = call("plain.parser", w.plain, MODULES.map((m) => this.plainModule(w, m)));
        p = { bound: front.DefaultParser, plain, world: w, index: this.parsers.length, what: "of the page" };
        this.parsers.push(p);
      } else p = this.compose(d.below(2) === 1, d.below(1 << 20));
      this.editor(p);
      this.event(`editor ${k} with a parser of ${p.what}`);
    }
    for (const [op, ...a] of this.steps) {
      const f = OPS[op];
      if (!f) continue;
      const e = this.editors[(a[0] ?? 0) % this.editors.length];
      this.schedule.push(`${op}:${e.index}`);
      const did = f(this, e, a.slice(1));
      if (did === false) {
        this.count("skipped");
        continue;
      }
      this.did++;
      page.now += 1;
      const full = (a.at(-1) ?? 0) % 4;
      for (const x of this.editors) this.check(x, did, x === e || full === 3 ? full : 0);
      this.state([e.index, e.parser.what, this.doc(e), e.mirror.get_caret()]);
      this.event(`${did} -> ${short(this.doc(e))} ${short(e.mirror.get_caret())}`);
    }
    for (const x of this.editors) this.check(x, "everything", 3);
  }
  finish() {
    for (const e of this.editors) e.mirror.free();
    for (const p of this.parsers) call("free", p.plain);
    for (const w of this.worlds) if (w) call("free", w.plain);
    for (const o of this.made) o.free();
  }
  onCells(e) {
    return "Grid" in (e.mirror.get_caret()[0] ?? {});
  }
  fits(e, extra, deep = 0) {
    const s = size(this.doc(e));
    return s.nodes + extra <= 80 && s.depth + deep <= 6;
  }
  brackets(nodes) {
    return (JSON.stringify(nodes).match(/"\("/g) ?? []).length;
  }
  place(e, n) {
    const all = [...rowsOf(this.doc(e))];
    const [path, nodes] = all[n % all.length];
    return { row_indices: path, offset: (n >> 6) % (nodes.length + 1) };
  }
}
/** The tree of a cell: of the container that is at that place of the row. */
function subtree(tree, [at, cell]) {
  for (;;) {
    const { children, range } = tree;
    if (children.NewRows && range.start === at) return children.NewRows.values[cell];
    const inner = (children.Children ?? []).find((c) => c.range.start <= at && at < c.range.end);
    if (!inner) return undefined;
    tree = inner;
  }
}

const OPS = {
  move(w, e, [d]) {
    w.step(e, "move_caret", "move_caret", pick(DIRECTIONS, d), "Char");
    return `moving ${pick(DIRECTIONS, d)} in editor ${e.index}`;
  },
  select(w, e, [d]) {
    if (w.onCells(e)) return false;
    w.step(e, "select_with_caret", "select_with_caret", pick(DIRECTIONS, d), "Char");
    return `selecting ${pick(DIRECTIONS, d)} in editor ${e.index}`;
  },
  type(w, e, [which]) {
    const text = pick(TYPED, which);
    if (w.onCells(e) || !w.fits(e, text.length * 3, 1)) return false;
    if (text.includes("(") && w.brackets(w.doc(e)) >= 4) return false;
    w.step(e, "insert_at_caret", "insert_at_caret", graphemes(text));
    return `typing ${JSON.stringify(text)} in editor ${e.index}`;
  },
  remove(w, e, [mode]) {
    if (w.onCells(e)) return false;
    const m = pick(["Left", "Right", "Range"], mode);
    w.step(e, `remove_at_caret ${m}`, "remove_at_caret", m, "Char");
    return `removing ${m} in editor ${e.index}`;
  },
  plain(w, e, [k]) {
    const f = pick(["undo", "redo", "undo", "redo", "select_all", "focus", "unfocus", "finish_selection"], k);
    w.step(e, f, f);
    return `${f} in editor ${e.index}`;
  },
  point(w, e, [kind, n]) {
    const at = w.place(e, n);
    if (kind % 3 === 0) w.step(e, "extend_selection", "extend_selection", at);
    else w.step(e, "start_selection", "start_selection", at, pick(["Char", "Char", "Word", "Line"], kind >> 2));
    return `${kind % 3 === 0 ? "extend_selection to" : "start_selection at"} ${short(at)} in editor ${e.index}`;
  },
  complete(w, e, [k]) {
    switch (k % 6) {
      case 0:
        w.step(e, "open_autocomplete", "open_autocomplete");
        return `open_autocomplete in editor ${e.index}`;
      case 1:
      case 2:
        w.step(e, "move_in_autocomplete", "move_in_autocomplete", pick(["Up", "Down"], k >> 3));
        return `move_in_autocomplete in editor ${e.index}`;
      default:
        if (w.onCells(e)) return false;
        w.step(e, "finish_autocomplete", "finish_autocomplete", k % 6 !== 3);
        return `finish_autocomplete in editor ${e.index}`;
    }
  },
  copy(w, e) {
    if (w.onCells(e)) return false;
    const r = w.step(e, "copy", "copy", "JsonInputTree");
    if (typeof r.answer === "string") w.clipboard.push(r.answer);
    return `copy in editor ${e.index}`;
  },
  paste(w, e, [which, fault]) {
    if (w.onCells(e)) return false;
    let text = pick(w.clipboard, which);
    if (fault % 5 === 0) text = pick(PASTED, which);
    else if (fault % 5 === 1) text = text.slice(0, (which >> 3) % (text.length + 1));
    if (fault % 5 < 2) w.count("fault.clipboard_damaged");
    let nodes = [];
    try {
      nodes = JSON.parse(text)?.data ?? [];
    } catch {}
    const s = size(nodes);
    if (!w.fits(e, s.nodes, s.depth) || w.brackets(nodes) + w.brackets(w.doc(e)) > 5) return false;
    const type = (fault >> 3) % 2 ? ["JsonInputTree"] : [];
    w.step(e, "paste", "paste", text, ...type);
    return `pasting ${short(text)} in editor ${e.index}`;
  },
  splice(w, e, [seed, n]) {
    const { nodes } = drawFormula(seed, 6);
    const s = size(nodes);
    if (!w.fits(e, s.nodes, s.depth)) return false;
    const { row_indices, offset } = w.place(e, n);
    const [, row] = [...rowsOf(w.doc(e))].find(([p]) => same(p, row_indices));
    const end = offset + ((n >> 12) % (row.length - offset + 1));
    w.step(e, "splice_at_range", "splice_at_range", { row_indices, start: offset, end }, nodes);
    return `splicing ${short(nodes)} into ${offset}..${end} of the row at ${short(row_indices)} in editor ${e.index}`;
  },
  /** Arguments that make no sense are refused and change nothing. */
  bad(w, e, [which, n]) {
    if (w.onCells(e)) return false;
    const before = short([w.doc(e), e.mirror.get_caret()]);
    let what;
    let r;
    if (which % 2) {
      const v = pick(NO_SYMBOLS, which >> 1);
      what = `typing ${short(v)}`;
      r = w.step(e, what, "insert_at_caret", v);
    } else {
      const v = pick(NO_NODES, which >> 1);
      const { row_indices, offset } = w.place(e, n);
      what = `splicing ${short(v)}`;
      r = w.step(e, what, "splice_at_range", { row_indices, start: offset, end: offset }, v);
    }
    if (r.refused && short([w.doc(e), e.mirror.get_caret()]) !== before) w.fail([], "refused-but-changed", what);
    w.count("fault.senseless_argument");
    return `${what} in editor ${e.index}`;
  },
  /** A program that makes rules of its own names them. */
  name(w, e, [which, n]) {
    const known = w.world(w.parsers.length ? w.parsers[n % w.parsers.length].world.own : false);
    const path = [pick(SPACES, which), ...(which & 64 ? [pick(SPACES, n >> 3)] : []), pick(NAMES, which >> 7)];
    const full = path.join("::");
    const [id, again, back] = call("plain.name", known.plain, path);
    known.named ??= new Map();
    const was = known.named.get(full);
    if (again !== id || (was !== undefined && was !== id)) w.fail(["C23"], "name-lost", `the name ${full} had the number ${was}, was given ${id} and leads to ${again}`);
    if (back?.join("::") !== full) w.fail(["C23"], "name-lost", `the name ${full} has the number ${id}, which leads to ${short(back)}`);
    for (const [other, x] of known.named) if (x === id && other !== full) w.fail(["C23"], "name-shared", `${full} and ${other} both have the number ${id}`);
    known.named.set(full, id);
    return `naming ${full}`;
  },
  /** Another parser, for an editor that is made next. */
  parser(w, e, [own, seed]) {
    if (w.parsers.length >= 6) return false;
    const p = w.compose(own % 2 === 1, seed);
    w.count("event.parser_composed");
    return `composing parser ${p.index} of ${p.what}`;
  },
  another(w, e, [which]) {
    if (w.editors.length >= 5) return false;
    const open = w.parsers.filter((p) => !p.gone);
    if (!open.length) return false;
    const p = pick(open, which);
    const x = w.editor(p);
    w.count("event.editor_added");
    return `making editor ${x.index} with a parser of ${p.what}`;
  },
  /** A parser is given up: the editors which have it keep it. */
  drop(w, e, [which]) {
    const open = w.parsers.filter((p) => !p.gone && p.bound !== front.DefaultParser);
    if (!open.length) return false;
    const p = pick(open, which);
    p.gone = true;
    p.bound.free();
    w.count("fault.parser_dropped");
    return `giving up parser ${p.index}`;
  },
};
