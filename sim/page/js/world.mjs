// The simulated page: executes plans (schedules of events, timers and faults)
// against the real front end and the real core, and checks what can be seen.
import "./segmenter.mjs";
import * as fs from "node:fs";
import { fileURLToPath } from "node:url";
import { page, freshPage, fire, guarded, runTimer, drain, isText } from "./dom.mjs";
import { calls, Mirror } from "./pkg.mjs";
import { MathEditor } from "front-end/component/math-editor.ts";
import { DefaultParser, ModulesCreator } from "front-end/core/index.ts";
import { readFormula, textsOf, emptyCells, caretBounds, boundsOfRow, cellsOf, itemsBetween, caretParts, readAs, size } from "./seen.mjs";
import { drawFormula, markup, sameButOdd } from "./formula.mjs";
import { Base, Violated, Foreign, same, short, pick, TYPED, graphemes } from "./base.mjs";
import { Api } from "./api.mjs";

customElements.define("math-editor", MathEditor);
/** Runs the set-up of the page (main.ts) once more. */
const setUpText = fs.readFileSync(fileURLToPath(import.meta.url).replace(/\.mjs$/, ".main.cjs"), "utf8");
const setUp = new Function("require", "module", "exports", setUpText);
const attribute = (s) => s.replace(/&/g, "&amp;").replace(/"/g, "&quot;");

/** What was copied in another window before the page was opened. */
const ELSEWHERE = JSON.stringify([{ Symbol: "x" }, { Container: ["Fraction", { values: [{ values: [{ Symbol: "1" }] }, { values: [] }], width: 1 }] }]);
const BROKEN_MARKUP = ["<div>x</div>", "just text", "<mi>x</mi>", "<svg></svg>", "<p><math></math></p>"];

class World extends Base {
  constructor(plan) {
    super(plan);
    this.clipboard = ELSEWHERE;
    this.editors = [];
  }

  // ------------------------------------------------------------ set-up
  start() {
    freshPage();
    calls.length = 0;
    const n = 1 + ((this.cfg.editors ?? 0) % 3);
    if (this.cfg.page === 1) this.markedFormulas(n);
    else for (let k = 0; k < n; k++) this.addEditor((this.cfg.start ?? 0) + k * 7, this.cfg.page === 2);
  }
  /** The page as delivered has formulas that are marked for editing. */
  markedFormulas(n) {
    const formulas = Array.from({ length: n }, (_, k) => drawFormula((this.cfg.start ?? 0) + k * 7, 10));
    const html = formulas.map((f, k) => {
      const m = markup(f, ((this.cfg.start ?? 0) + k) % 4 ? 1 + f.seed : 0).replace("<math", `<math data-editor${["", "=true", '="true"'][(f.seed >>> 0) % 3]}`);
      return f.seed % 5 < 2 ? `<p>then <i>a</i>${m} follows</p>` : m;
    });
    const other = "<math><mi>q</mi></math>";
    guarded("markup", () => (document.body.innerHTML = `<h1>Formulas</h1>${html.join(other)}<p>the end</p>${other}`));
    const before = text(document.body, (e) => e.hasAttribute("data-editor"));
    calls.length = 0;
    guarded("set-up", () => setUp((name) => ({ [name]: 0, MathEditor }), { exports: {} }, {}));
    const made = calls.filter((c) => c.f === "new").map((c) => c.editor);
    calls.length = 0;
    this.event(`a page with ${short(html)} is opened`);
    if (page.errors.length) this.fail(["C19", "C22"], "set-up-failed", page.errors.pop().message);
    const elements = document.body.querySelectorAll("math-editor");
    const after = text(document.body, (e) => e.localName === "math-editor");
    if (elements.length !== n || made.length !== n || before !== after) {
      this.fail(["C19"], "formula-not-replaced", `of ${n} formulas marked for editing ${elements.length} became editors; the page was ${before} and is ${after}`);
    }
    this.count("event.page_with_formulas");
    elements.forEach((element, k) => {
      const e = { element, core: made[k], mirror: new Mirror(DefaultParser), index: this.editors.length, pressed: new Set(), broken: false };
      this.editors.push(e);
      this.mirrorReplace(e, formulas[k].nodes);
      const got = this.docOf(e.core);
      if (!same(got, formulas[k].nodes)) {
        this.fail(["C19"], "import-differs", `the page has ${html[k]} and the document became ${short(got)}, not ${short(formulas[k].nodes)}`);
      }
    });
    this.settle(this.editors[0], "opening the page");
  }
  addEditor(seed, asMarkup = false) {
    const before = calls.length;
    const how = seed % 4;
    const formula = drawFormula(seed, 10);
    let element;
    if (asMarkup) {
      const m = how === 0 ? null : markup(formula, how === 3 ? 1 + formula.seed : 0);
      const at = document.createElement("div");
      document.body.append(at);
      guarded("creating", () => (at.innerHTML = `<math-editor${m === null ? "" : ` mathml="${attribute(m)}"`}></math-editor>`));
      element = at.firstElementChild;
    } else element = guarded("creating", () => document.createElement("math-editor"));
    if (!element) this.fail(["C18", "C19", "C22", "C24"], "creating-failed", page.errors.pop().message);
    const core = calls.slice(before).find((c) => c.f === "new")?.editor;
    const e = { element, core, mirror: new Mirror(DefaultParser), index: this.editors.length, pressed: new Set(), broken: false };
    calls.length = 0;
    this.editors.push(e);
    if (asMarkup) {
      this.mirrorReplace(e, how === 0 ? [] : formula.nodes);
      const got = this.docOf(core);
      if (!same(got, this.docOf(e.mirror))) this.fail(["C19"], "import-differs", `the page has ${element.outerHTML} and the document became ${short(got)}`);
    } else {
      // The host sets the formula before it adds the element, afterwards, or never
      if (how === 1 || how === 3) this.hostSets(e, formula, how === 3, true);
      guarded("adding", () => document.body.append(element));
      if (how === 2) this.hostSets(e, formula, true, true);
    }
    this.settle(e, "adding the editor");
    this.event(`editor ${e.index} shows ${short(this.docOf(e.mirror))}`);
  }
  docOf(core) {
    return core.get_input_tree().values;
  }
  mirrorReplace(e, nodes) {
    const n = this.docOf(e.mirror).length;
    e.mirror.splice_at_range({ row_indices: [], start: 0, end: n }, nodes);
  }
  /** The host page sets the formula. */
  hostSets(e, formula, fancy, quiet, style = 0) {
    let m = markup(formula, fancy ? 1 + formula.seed + style : 0);
    if (!quiet && e.last && style % 5 === 4) {
      // The same once more, whatever was edited in between
      [formula, m] = e.last;
      this.count("event.host_sets_it_again");
    }
    e.doc0 = formula.nodes;
    guarded("setAttribute", () => e.element.setAttribute("mathml", m));
    e.last = [formula, m];
    this.mirrorReplace(e, formula.nodes);
    if (!quiet) this.event(`host sets editor ${e.index} to ${m.length > 400 ? m.slice(0, 400) + "..." : m}`);
    this.count("event.host_sets_formula");
    const got = this.docOf(e.core);
    if (!same(got, formula.nodes)) {
      this.fail(["C19"], "import-differs", `the host page set ${m} and the document became ${short(got)}, not ${short(formula.nodes)}`);
    }
  }

  // ------------------------------------------------------------ checks
  /** After an event was handled. */
  settle(e, what) {
    if (page.errors.length) {
      const err = page.errors[0];
      page.errors = [];
      this.fail(["C22"], "event-failed", `${what} failed: ${err.message} ${err.stack.split("\n").slice(1, 4).join(" <- ").trim()}`);
    }
    if (["C18", "C22", "C24"].includes(this.prop)) for (const x of this.editors) this.shown(x, what);
    if (page.timers.length === 0) {
      for (const x of this.editors) this.inStep(x, what);
    }
    this.state([e.index, this.docOf(e.mirror), e.mirror.get_caret(), page.timers.length]);
  }
  inStep(e, what) {
    const doc = this.docOf(e.core);
    const want = this.docOf(e.mirror);
    if (!same(doc, want)) {
      this.fail(["C22"], "document-differs", `after ${what} editor ${e.index} holds ${short(doc)}, in order of the events it is ${short(want)}`);
    }
    const caret = e.core.get_caret();
    const wantCaret = e.mirror.get_caret();
    if (!same(caret, wantCaret)) {
      this.fail(["C22"], "caret-differs", `after ${what} the caret of editor ${e.index} is ${short(caret)}, in order of the events it is ${short(wantCaret)}`);
    }
  }
  read(e) {
    try {
      return readFormula(e.element);
    } catch (err) {
      this.fail(["C18"], "unreadable", `what is shown cannot be read: ${err.message}`);
    }
  }
  shown(e, what) {
    const seen = this.read(e);
    const doc = this.docOf(e.core);
    if (!same(seen.nodes, doc)) {
      this.fail(["C18", "C22"], "shown-differs", `after ${what} editor ${e.index} shows ${short(seen.nodes)} but holds ${short(doc)}`);
    }
    if (this.prop === "C24") this.marked(e, seen, what);
    if (this.prop !== "C18") return;
    const carets = e.core.get_caret();
    const parts = caretParts(e.element);
    if (parts.length !== carets.length) {
      this.fail(["C18"], "caret-missing", `after ${what} ${parts.length} carets are drawn for ${carets.length}`);
    }
    carets.forEach((c, i) => this.caretShown(seen, c, parts[i], what));
  }
  /** Symbols are shown as what they were read as. */
  marked(e, seen, what) {
    let tree;
    try {
      tree = e.core.get_syntax_tree();
    } catch (err) {
      this.fail([], "core-stopped", err.message);
    }
    const styles = stylesOf(e.element);
    const { wrong, checked } = readAs(seen, tree, nameOf, styles);
    if (wrong) this.fail(["C24"], wrong[0], `after ${what} in editor ${e.index}: ${wrong[1]}; it shows ${short(seen.nodes)}`);
    this.count("check.read_as", checked);
  }
  caretShown(seen, caret, part, what) {
    const eps = 0.01;
    if (caret.Row) {
      const { row_indices, start, end } = caret.Row;
      const at = caretBounds(seen, row_indices, end);
      if (!at) this.fail(["C18"], "caret-nowhere", `after ${what} the caret is at ${short(caret)}, which is not shown`);
      const row = boundsOfRow(seen, row_indices);
      const ok =
        part.caret.visible &&
        part.caret.x >= at.left - eps &&
        part.caret.x <= at.right + eps &&
        part.caret.bottom >= row.top - eps &&
        part.caret.bottom <= row.bottom + 0.35 * row.font + eps &&
        part.caret.height > 0 &&
        // Most of it, not only its tip, is in the row
        Math.min(part.caret.bottom, row.bottom) - Math.max(part.caret.bottom - part.caret.height, row.top) >=
          0.5 * Math.min(part.caret.height, row.bottom - row.top) - eps;
      if (!ok) {
        this.fail(["C18"], "caret-misplaced", `after ${what} the caret at ${short(caret)} is drawn at ${short(part.caret)}, its place is between x=${at.left} and x=${at.right} in the row at ${short(row)}`);
      }
      this.count("check.caret_drawn");
      if (start === end) {
        if (part.selections.length) this.fail(["C18"], "selection-misplaced", `after ${what} a selection is drawn though nothing is selected`);
        return;
      }
      const [lo, hi] = [Math.min(start, end), Math.max(start, end)];
      const l = caretBounds(seen, row_indices, lo);
      const r = caretBounds(seen, row_indices, hi);
      const items = itemsBetween(seen, row_indices, lo, hi);
      const s = part.selections[0];
      const good =
        part.selections.length === 1 &&
        s.x >= l.left - eps &&
        s.x <= l.right + eps &&
        s.x + s.width >= r.left - eps &&
        s.x + s.width <= r.right + eps &&
        items.every((b) => s.y <= b.top + eps && s.y + s.height >= b.bottom - eps) &&
        s.y >= row.top - eps &&
        s.y + s.height <= row.bottom + eps;
      if (!good) {
        this.fail(["C18"], "selection-misplaced", `after ${what} the selection ${short(caret)} is drawn at ${short(part.selections)}; it reaches from x=${l.left}..${l.right} to x=${r.left}..${r.right} over ${short(items)}`);
      }
      this.count("check.selection_drawn");
    } else {
      const { row_indices, index, range } = caret.Grid;
      const cells = cellsOf(seen, row_indices, index, range);
      const s = part.selections[0];
      const good =
        part.selections.length === 1 &&
        !part.caret.visible &&
        cells?.held.length > 0 &&
        cells.held.every((b) => s.x <= b.left + eps && s.x + s.width >= b.right - eps && s.y <= b.top + eps && s.y + s.height >= b.bottom - eps) &&
        // and over no cell beside them
        cells.others.every((b) => {
          const [x, y] = [(b.left + b.right) / 2, (b.top + b.bottom) / 2];
          return x < s.x || x > s.x + s.width || y < s.y || y > s.y + s.height;
        });
      if (!good) {
        this.fail(["C18"], "selection-misplaced", `after ${what} the selected cells ${short(caret)} are drawn as ${short(part)}, its cells are at ${short(cells)}`);
      }
      this.count("check.cells_drawn");
    }
  }

  // ------------------------------------------------------------ events
  who(s) {
    return this.editors[s % this.editors.length];
  }
  target(e) {
    return document.activeElement && e.element.shadowRoot && within(document.activeElement, e.element)
      ? document.activeElement
      : find(e.element, (n) => n.localName === "textarea");
  }
  onCells(e) {
    return "Grid" in (e.mirror.get_caret()[0] ?? {});
  }
  fits(e, extra, deep = 0) {
    const s = size(this.docOf(e.mirror));
    return s.nodes + extra <= 120 && s.depth + deep <= 7;
  }
  /** Keys now go to this editor. */
  focused(e, what) {
    if (page.errors.length === 0 && !(document.activeElement && within(document.activeElement, e.element))) {
      this.fail(["C22"], "keys-go-elsewhere", `after ${what} key presses do not reach editor ${e.index}`);
    }
  }
  brackets(nodes) {
    return (JSON.stringify(nodes).match(/"\("/g) ?? []).length;
  }
  async run() {
    this.start();
    await drain();
    for (const [op, ...a] of this.steps) {
      const f = OPS[op];
      if (!f) continue;
      const e = this.who(a[0] ?? 0);
      this.schedule.push(`${op}:${e.index}`);
      const did = f(this, e, a.slice(1));
      if (did === false) {
        this.count("skipped");
        continue;
      }
      this.did++;
      await drain();
      page.now += 3;
      this.settle(e, typeof did === "string" ? did : op);
      this.event(`${did} -> ${short(this.docOf(e.core))} ${short(e.core.get_caret())}${page.timers.length ? ` (${page.timers.length} timers pending)` : ""}`);
    }
    while (page.timers.length) {
      runTimer();
      await drain();
      this.settle(this.editors[0], "the last timers");
    }
  }
  finish() {
    for (const e of this.editors) {
      e.core?.free();
      e.mirror?.free();
    }
  }
}
/** What a page says, with a mark for each of some elements. */
function text(node, marked) {
  if (isText(node)) return node.data;
  if (marked(node)) return "[formula]";
  return `<${node.localName}>${node.childNodes.map((c) => text(c, marked)).join("")}`;
}
let names = null;
function nameOf(id) {
  if (!names?.has(id)) names = new Map(Array.from(ModulesCreator.get_syntax_node_name_map().values, ([path, id]) => [id, path.join("::")]));
  return names.get(id) ?? fault(`no name for ${id}`);
}
const fault = (what) => {
  throw new Error(what);
};
/** The style sheets that apply inside of an editor. */
function stylesOf(element) {
  const all = [];
  const go = (n) => {
    if (n.localName === "style") all.push(n.textContent);
    n.childNodes.forEach(go);
  };
  if (element.shadowRoot) go(element.shadowRoot);
  return all.join("\n").replace(/\/\*[^]*?\*\//g, "");
}
function within(node, ancestor) {
  for (let n = node; n; n = n.parentNode ?? n.host) if (n === ancestor) return true;
  return false;
}
function find(node, ok) {
  if (ok(node)) return node;
  const kids = [...(node.shadowRoot ? [node.shadowRoot] : []), ...node.childNodes];
  for (const c of kids) {
    const f = find(c, ok);
    if (f) return f;
  }
  return null;
}

const KEYS = [
  ["ArrowLeft", "ArrowLeft", (m) => m.move_caret("Left", "Char")],
  ["ArrowRight", "ArrowRight", (m) => m.move_caret("Right", "Char")],
  ["ArrowUp", "ArrowUp", (m) => m.move_caret("Up", "Char")],
  ["ArrowDown", "ArrowDown", (m) => m.move_caret("Down", "Char")],
  ["z", "KeyZ", (m) => m.undo(), true],
  ["y", "KeyY", (m) => m.redo(), true],
  ["Shift", "ShiftLeft", null],
  ["a", "KeyA", null],
  ["z", "KeyZ", null],
  ["Enter", "Enter", null],
  // Caps lock
  ["Z", "KeyZ", (m) => m.undo(), true],
  ["Y", "KeyY", (m) => m.redo(), true],
  // What an input method takes
  ["Process", "KeyA", null],
  ["Unidentified", "", null],
];

function input(w, e, inputType, data) {
  fire(w.target(e), "beforeinput", { inputType, data, isComposing: false });
}
const OPS = {
  key(w, e, [k, held = 0]) {
    const [key, code, act, ctrl] = pick(KEYS, k);
    // Cells of a table are selected: the core cannot do this yet (known finding of C09)
    if (w.onCells(e) && act && !ctrl) return false;
    // A key that is held repeats
    for (let i = 0; i <= held; i++) {
      if (i && w.onCells(e) && act && !ctrl) break;
      if (act) act(e.mirror);
      fire(w.target(e), "keydown", { key, code, ctrlKey: !!ctrl, shiftKey: false, altKey: false, metaKey: false, repeat: i > 0 });
      w.count(i ? "event.key_repeated" : "event.key");
    }
    fire(w.target(e), "keyup", { key, code, ctrlKey: !!ctrl, shiftKey: false, altKey: false, metaKey: false, repeat: false });
    return `key ${ctrl ? "Ctrl+" : ""}${key}${held ? `, held ${held},` : ""} in editor ${e.index}`;
  },
  type(w, e, [which]) {
    if (w.onCells(e)) return false;
    const text = pick(TYPED, which);
    if (!w.fits(e, text.length * 3, 1)) return false;
    if (text.includes("(") && w.brackets(w.docOf(e.mirror)) >= 4) return false;
    e.mirror.insert_at_caret(graphemes(text));
    input(w, e, "insertText", text);
    w.count("event.text");
    return `typing ${JSON.stringify(text)} in editor ${e.index}`;
  },
  del(w, e, [which]) {
    if (w.onCells(e)) return false;
    const [inputType, dir] = pick(
      [
        ["deleteContentBackward", "Left"],
        ["deleteContentForward", "Right"],
        ["deleteWordBackward", "Left"],
        ["deleteWordForward", "Right"],
      ],
      which
    );
    e.mirror.remove_at_caret(dir, "Char");
    input(w, e, inputType, null);
    w.count("event.delete");
    return `${inputType} in editor ${e.index}`;
  },
  /** Input that has no text or no meaning for a formula. */
  odd(w, e, [which]) {
    const [inputType, data] = pick(
      [
        ["insertText", null],
        ["insertCompositionText", "x"],
        ["insertLineBreak", null],
        ["historyUndo", null],
        ["insertFromPaste", "a"],
      ],
      which
    );
    input(w, e, inputType, data);
    w.count("fault.meaningless_input");
    return `${inputType} without meaning in editor ${e.index}`;
  },
  timer(w, e) {
    if (!runTimer()) return false;
    w.count("event.timer");
    return "a timer";
  },
  timers(w, e) {
    if (!page.timers.length) return false;
    while (runTimer()) w.count("event.timer");
    return "all timers";
  },
  copy(w, e, [fault]) {
    return clip(w, e, fault, "copy");
  },
  cut(w, e, [fault]) {
    return clip(w, e, fault, "cut");
  },
  paste(w, e, [which, fault]) {
    if (w.onCells(e)) return false;
    let json = "";
    let text = "";
    switch (fault % 12) {
      case 0:
        fire(w.target(e), "paste", { clipboardData: null });
        w.count("fault.no_clipboard");
        return `pasting without a clipboard in editor ${e.index}`;
      case 1:
        w.count("fault.clipboard_lost");
        break;
      case 2:
        text = pick(["hello", "[1,2]", '{"values":[]}', "<math></math>", "", "null", '"x"', "[]"], which);
        w.count("fault.clipboard_foreign");
        break;
      case 3:
        json = (w.clipboard ?? "[]").slice(0, which % ((w.clipboard ?? "[]").length + 1));
        w.count("fault.clipboard_truncated");
        break;
      case 4:
        text = w.clipboard ?? "";
        w.count("fault.clipboard_as_text");
        break;
      case 5: {
        // Copied in another window
        json = JSON.stringify(drawFormula(which, 6).nodes);
        w.count("event.clipboard_from_elsewhere");
        break;
      }
      case 6:
        // What was copied, and something else as its text
        json = w.clipboard ?? "";
        text = pick(["hello", "[]", '["x"]', '[{"Symbol":"x"}]', "<math></math>"], which);
        w.count("fault.clipboard_two_types");
        break;
      default:
        json = w.clipboard ?? "";
    }
    const content = json || text;
    let nodes = null;
    try {
      nodes = JSON.parse(content);
    } catch {}
    if (Array.isArray(nodes)) {
      const s = size(nodes);
      if (!w.fits(e, s.nodes, s.depth)) return false;
      if (w.brackets(nodes) + w.brackets(w.docOf(e.mirror)) > 5) return false;
    }
    let refused = false;
    try {
      e.mirror.paste(content, "JsonInputTree");
    } catch (err) {
      if (/core stopped/.test(err.message)) w.fail([], "core-stopped", err.message);
      refused = true;
    }
    fire(w.target(e), "paste", {
      clipboardData: { getData: (t) => (t === "application/json" ? json : t === "text/plain" ? text : "") },
    });
    if (refused) {
      w.count("fault.paste_refused");
      // The page may report it
      page.errors = page.errors.filter((x) => x.what !== "paste" || /core stopped/.test(x.message));
    }
    w.count("event.paste");
    return `pasting ${short(content)} in editor ${e.index}`;
  },
  pointer(w, e, a) {
    return pointer(w, e, a);
  },
  host(w, e, [seed, fancy]) {
    if (fancy % 7 === 3) return withOdd(w, e, drawFormula(seed, 12, true), fancy);
    w.hostSets(e, drawFormula(seed, 12), fancy % 3 !== 0, false, fancy);
    return `the host page setting the formula of editor ${e.index}`;
  },
  /** The host page sets something that is no formula: it is reported and nothing changes. */
  broken(w, e, [which]) {
    if (which % 8 === 0) {
      // An empty or missing attribute: there is no formula
      const how = (which >> 3) % 2 === 0;
      const had = how || e.element.hasAttribute("mathml");
      guarded("setAttribute", () => (how ? e.element.setAttribute("mathml", "") : e.element.removeAttribute("mathml")));
      if (!had) return `the host page removing an attribute that editor ${e.index} does not have`;
      w.mirrorReplace(e, []);
      w.count("event.host_sets_nothing");
      if (w.docOf(e.core).length) w.fail(["C19"], "import-differs", `the host page ${how ? "emptied" : "removed"} the formula and the document is ${short(w.docOf(e.core))}`);
      return `the host page ${how ? "emptying" : "removing"} the formula of editor ${e.index}`;
    }
    const m = pick(BROKEN_MARKUP, which);
    guarded("setAttribute", () => e.element.setAttribute("mathml", m));
    page.errors = page.errors.filter((x) => x.what !== "setAttribute" || /core stopped/.test(x.message));
    w.count("fault.host_sets_no_formula");
    return `the host page setting ${m} in editor ${e.index}`;
  },
  focus(w, e) {
    const c = find(e.element, (n) => n.tabIndex === 0);
    if (!c) return false;
    c.focus?.();
    w.focused(e, "focusing it");
    w.count("event.focus");
    return `focusing editor ${e.index}`;
  },
  /** The host page moves an editor, or takes it out for a while. */
  move(w, e, [how, seed]) {
    if (e.pressed.size) return false;
    const others = document.body.childNodes;
    const put = () => guarded("moving", () => document.body.insertBefore(e.element, how & 8 ? others.find((x) => x !== e.element) ?? null : null));
    w.count("event.editor_moved");
    if (how % 3 === 0) {
      put();
      return `moving editor ${e.index}`;
    }
    guarded("taking out", () => e.element.remove());
    // What was deferred runs in the meantime
    if (how & 16) while (runTimer());
    if (how % 3 === 2) w.hostSets(e, drawFormula(seed, 10), seed % 3 !== 0, true, seed);
    put();
    return `taking editor ${e.index} out${how % 3 === 2 ? ", setting its formula" : ""} and putting it back`;
  },
  another(w) {
    if (w.editors.length >= 3) return false;
    w.addEditor((w.cfg.start ?? 0) + w.editors.length * 5 + 1, w.cfg.page === 2);
    w.count("event.editor_added");
    return "adding an editor";
  },
};

function clip(w, e, fault, kind) {
  if (w.onCells(e)) return false;
  if (fault % 8 === 0) {
    fire(w.target(e), kind, { clipboardData: null });
    w.count("fault.no_clipboard");
    return `${kind} without a clipboard in editor ${e.index}`;
  }
  const want = e.mirror.copy("JsonInputTree");
  if (kind === "cut") e.mirror.remove_at_caret("Range", "Char");
  let held = {};
  const ev = fire(w.target(e), kind, {
    clipboardData: {
      setData: (t, v) => {
        held[t] = v;
      },
    },
  });
  w.count(`event.${kind}`);
  // Unless told otherwise, a browser puts the text selected in the focused field there
  if (!ev.defaultPrevented) held = {};
  const got = held["application/json"];
  if (page.errors.length === 0 && got !== want) {
    w.fail(["C22"], "clipboard-differs", `${kind} put ${short(got)} on the clipboard, selected is ${want}`);
  }
  if (fault % 8 !== 1) w.clipboard = got ?? null;
  else w.count("fault.clipboard_not_stored");
  return `${kind} in editor ${e.index}`;
}

/** Where the user points: at a side of a symbol, into an empty cell, or anywhere. */
function aim(w, e, how, n) {
  const seen = w.read(e);
  const texts = textsOf(seen);
  const empty = emptyCells(seen);
  const kind = how % 8;
  if (kind < 5 && texts.length) {
    const t = texts[n % texts.length];
    const right = (n >> 8) % 2 === 1;
    const x = t.rect.x + t.rect.width * ((right ? 0.65 : 0.05) + 0.1 * ((n >> 9) % 4));
    return { x, y: t.rect.y + t.rect.height * (0.15 + 0.1 * ((n >> 11) % 8)), place: { row_indices: t.path, offset: t.index + (right ? 1 : 0) } };
  }
  if (kind < 7 && empty.length) {
    const c = empty[n % empty.length];
    const [u, v] = [0.1 + 0.2 * ((n >> 8) % 5), 0.1 + 0.2 * ((n >> 11) % 5)];
    return { x: c.rect.x + c.rect.width * u, y: c.rect.y + c.rect.height * v, place: { row_indices: c.path, offset: 0 } };
  }
  const b = seen.bounds;
  return { x: b.x - 6 + ((n % 64) / 63) * (b.width + 12), y: b.y - 6 + (((n >> 6) % 64) / 63) * (b.height + 12), place: null };
}
const pathOk = (nodes, { row_indices, offset }) => {
  for (const [i, j] of row_indices) {
    const c = nodes[i]?.Container;
    if (!c || !c[1].values[j]) return false;
    nodes = c[1].values[j].values;
  }
  return offset >= 0 && offset <= nodes.length;
};

const POINTER = ["pointerdown", "pointermove", "pointermove", "pointerup", "pointerup", "pointercancel", "mousedown", "mousedown"];
/** A formula that has something in it that the editor does not know. */
function withOdd(w, e, formula, style) {
  const m = markup(formula, 1 + formula.seed + style);
  e.last = null;
  guarded("setAttribute", () => e.element.setAttribute("mathml", m));
  w.count("fault.host_sets_odd_element");
  const got = w.docOf(e.core);
  const why = page.errors.length ? ` (${page.errors[0].message})` : "";
  if (!sameButOdd(got, formula.nodes)) {
    w.fail(["C19"], "odd-element-spoils", `the host page set ${m} and the document became ${short(got)}, not ${short(formula.nodes)}${why}`);
  }
  w.mirrorReplace(e, got);
  return `the host page setting a formula with an odd element in editor ${e.index}`;
}
function pointer(w, e, [kind, how, n, other]) {
  let type = pick(POINTER, kind);
  const secondary = other % 16 === 0;
  const clicks = type === "mousedown" ? 1 + (other % 3) : 0;
  const pending = page.timers.length > 0;
  const at = aim(w, e, how, n);
  const id = secondary ? 2 : 1;
  const pressed = e.pressed.has(1);
  const before = calls.length;
  const dragging = pressed && !secondary && type !== "pointerdown" && type !== "mousedown";
  // A drag that was not captured leaves the editor
  const b = w.read(e).bounds;
  const outside = at.x < b.x || at.x > b.x + b.width || at.y < b.y || at.y > b.y + b.height;
  const container = page.capture.get(id) ?? (dragging && outside ? document.body : hit(e, at));
  if (page.capture.has(id) && !within(page.capture.get(id), e.element)) return false;
  fire(container, type, { clientX: at.x, clientY: at.y, isPrimary: !secondary, pointerId: id, detail: clicks, button: 0 });
  if (type === "pointerup" || type === "pointercancel") page.capture.delete(id);
  const made = calls.slice(before).filter((c) => c.editor === e.core && /_selection$/.test(c.f));
  const foreign = calls.slice(before).find((c) => c.editor !== e.core && w.editors.some((x) => x.core === c.editor) && /_selection$/.test(c.f));
  calls.length = 0;
  w.count(`event.${type}`);
  const text = `${type}${clicks > 1 ? clicks : ""} at (${at.x.toFixed(1)}, ${at.y.toFixed(1)})${secondary ? " by a second finger" : ""} in editor ${e.index}`;
  if (page.errors.length) return text;
  if (type === "pointerdown" && !secondary) w.focused(e, text);
  if (foreign) w.fail(["C22"], "pointer-misled", `${text} reached another editor`);
  // What the event means; the place is the one pointed at, or else what the page took it for
  const wanted = [];
  if (secondary && type !== "mousedown") {
    // A second finger does nothing
  } else if (type === "pointerdown") {
    wanted.push(["start_selection", "Char"]);
    e.pressed.add(1);
  } else if (!pressed) {
    // Nothing is pressed in the formula, so nothing is selected
  } else if (type === "pointermove") wanted.push(["extend_selection"]);
  else if (type === "mousedown") {
    if (clicks > 1) wanted.push(["start_selection", clicks === 2 ? "Word" : "Line"]);
  } else {
    wanted.push(["extend_selection"], ["finish_selection"]);
    e.pressed.delete(1);
  }
  for (const [f, ...more] of wanted) {
    if (f === "finish_selection") {
      if (!made.some((c) => c.f === f)) w.fail(["C22"], "pointer-lost", `${text} ends a selection and did not`);
      e.mirror.finish_selection();
      continue;
    }
    const place = at.place && !pending ? at.place : made.find((c) => c.f === f)?.args[0];
    if (place) e.mirror[f](place, ...more);
  }
  const places = made.filter((c) => c.f !== "finish_selection").map((c) => c.args[0]);
  for (const p of places) {
    if (at.place && !pending && !same(p, at.place)) {
      w.fail(["C18"], "click-misplaced", `${text} points at ${short(at.place)} and was taken for ${short(p)}`);
    }
    w.count(at.place ? "check.click_on_place" : "check.click_anywhere");
  }
  return text;
}
function hit(e, at) {
  const root = find(e.element, (n) => n.localName === "math") ?? e.element;
  let best = root;
  const walk = (n) => {
    const r = n.getBoundingClientRect?.();
    if (r && at.x >= r.left && at.x <= r.right && at.y >= r.top && at.y <= r.bottom) best = n;
    for (const c of n.childNodes) walk(c);
  };
  walk(root);
  return best;
}

// ---------------------------------------------------------------- driver
async function execute(request) {
  const w = request.prop === "C23" ? new Api(request.plan) : new World(request.plan);
  w.prop = request.prop;
  let foreign = null;
  try {
    await w.run();
  } catch (err) {
    if (err instanceof Foreign) foreign = err.message.toWellFormed();
    else if (!(err instanceof Violated)) {
      const m = Array.isArray(err) ? err[0] : err;
      if (/core stopped|recursive use/.test(String(m?.message))) {
        // The core stopped in a call of the simulator or of the page
        try {
          w.fail(w instanceof Api ? [] : ["C22"], "core-stopped", String(m.message));
        } catch (e2) {
          if (e2 instanceof Foreign) foreign = e2.message.toWellFormed();
        }
      } else return { bug: String(m?.stack ?? m) };
    }
  }
  try {
    w.finish();
  } catch {}
  return {
    violation: w.violation ?? null,
    foreign,
    log: w.log,
    counters: w.counters,
    schedule: w.schedule,
    states: w.states,
    did: w.did,
    now: page.now,
    warnings: page.warnings.length,
  };
}

const chunk = Buffer.alloc(1 << 16);
let rest = Buffer.alloc(0);
function readLine() {
  for (;;) {
    const i = rest.indexOf(10);
    if (i >= 0) {
      const line = rest.subarray(0, i).toString();
      rest = rest.subarray(i + 1);
      return line;
    }
    let n = 0;
    try {
      n = fs.readSync(0, chunk);
    } catch (e) {
      if (e.code === "EAGAIN") continue;
      if (e.code !== "EOF") throw e;
    }
    if (n === 0) process.exit(0);
    rest = Buffer.concat([rest, chunk.subarray(0, n)]);
  }
}
function writeAll(s) {
  let b = Buffer.from(s);
  while (b.length) {
    try {
      b = b.subarray(fs.writeSync(1, b));
    } catch (e) {
      if (e.code !== "EAGAIN") throw e;
    }
  }
}
for (;;) writeAll(JSON.stringify(await execute(JSON.parse(readLine()))) + "\n");
