// Reads what a formula on the page shows, as a person would: the document that
// is shown, and where its symbols and cells are.
import { isText, placeOf } from "./dom.mjs";

const MARKS = new Set(["⬚", "\u00a0\u00a0"]);

function union(rects) {
  const rs = rects.filter((r) => r);
  if (!rs.length) return null;
  const left = Math.min(...rs.map((r) => r.left));
  const top = Math.min(...rs.map((r) => r.top));
  const right = Math.max(...rs.map((r) => r.right));
  const bottom = Math.max(...rs.map((r) => r.bottom));
  return { x: left, y: top, left, top, right, bottom, width: right - left, height: bottom - top };
}
const rectOf = (n) => placeOf(n)?.rect;

/** A row: its items (symbols and containers), its marks, and the elements it is read from. */
function readRow(nodes) {
  const row = { items: [], marks: [], from: nodes, font: null };
  for (const n of nodes) add(row, n);
  row.rect = union([...row.items.map((i) => i.rect), ...row.marks.map((m) => m.rect)]) ?? union(nodes.map(rectOf));
  row.font ??= placeOf(nodes[0])?.font ?? 20;
  return row;
}
function container(variant, width, cells, node) {
  const rows = cells.map((c) => readRow(c));
  return { variant, width, rows, node, rect: rectOf(node) };
}
const expect = (ok, what) => {
  if (!ok) throw new Error(what);
};
function add(row, n) {
  if (isText(n)) throw new Error(`loose text ${JSON.stringify(n.data)}`);
  const kids = n.childNodes;
  switch (n.localName) {
    case "mi":
    case "mn":
    case "mo":
    case "mtext":
    case "ms":
    case "mspace":
    case "merror":
      row.font ??= placeOf(n)?.font;
      for (const t of kids) {
        if (!isText(t)) {
          add(row, t);
          continue;
        }
        if (MARKS.has(t.data)) row.marks.push({ node: t, rect: rectOf(t), at: row.items.length, element: n });
        else row.items.push({ symbol: t.data, node: t, rect: rectOf(t), element: n });
      }
      break;
    case "mrow":
    case "mstyle":
    case "mpadded":
      for (const c of kids) add(row, c);
      break;
    case "mphantom":
      expect(kids.length === 0, "hidden content");
      break;
    case "mfrac":
      expect(kids.length === 2, `a fraction of ${kids.length}`);
      row.items.push(container("Fraction", 1, kids.map((k) => [k]), n));
      break;
    case "mroot":
      expect(kids.length === 2, `a root of ${kids.length}`);
      row.items.push(container("Root", 2, [[kids[1]], [kids[0]]], n));
      break;
    case "msup":
    case "msub": {
      expect(kids.length === 2, `a script of ${kids.length}`);
      const base = row.items.length;
      add(row, kids[0]);
      const hangsOn = [base, row.items.length];
      // Spaces around the script itself are shown next to it
      const script = [kids[1]];
      const after = [];
      const space = (k) => k?.localName === "mspace";
      while (script.length === 1 && script[0].localName === "mrow" && script[0].childNodes.some(space)) {
        const inner = [...script[0].childNodes];
        while (space(inner[0])) add(row, inner.shift());
        while (space(inner.at(-1))) after.unshift(inner.pop());
        script.splice(0, 1, ...inner);
      }
      expect(script.length === 1, "a script of several parts");
      row.items.push({ ...container(n.localName === "msup" ? "Sup" : "Sub", 1, [script], script[0]), hangsOn });
      for (const k of after) add(row, k);
      break;
    }
    case "mtable": {
      const rows = kids.map((r) => {
        expect(r.localName === "mtr", "a table row");
        return r.childNodes.map((c) => {
          expect(c.localName === "mtd", "a table cell");
          return c.childNodes;
        });
      });
      const width = rows[0]?.length ?? 0;
      expect(rows.every((r) => r.length === width), "rows of a table differ in length");
      row.items.push(container("Table", width, rows.flat(), n));
      break;
    }
    default:
      throw new Error(`unexpected element ${n.localName}`);
  }
}
const nodesOf = (row) =>
  row.items.map((i) =>
    i.symbol !== undefined
      ? { Symbol: i.symbol }
      : { Container: [i.variant, { values: i.rows.map((r) => ({ values: nodesOf(r) })), width: i.width }] }
  );

function findMath(node) {
  if (node.localName === "math") return node;
  for (const c of [...(node.shadowRoot ? [node.shadowRoot] : []), ...node.childNodes]) {
    const f = findMath(c);
    if (f) return f;
  }
  return null;
}
export function readFormula(element) {
  const math = findMath(element);
  expect(math, "no formula is shown");
  const row = readRow(math.childNodes);
  return { row, nodes: nodesOf(row), bounds: rectOf(math) };
}
function rowAt(seen, path) {
  let row = seen.row;
  for (const [i, j] of path) {
    row = row?.items[i]?.rows?.[j];
  }
  return row ?? null;
}
function visit(row, path, f) {
  f(row, path);
  row.items.forEach((item, i) => item.rows?.forEach((r, j) => visit(r, [...path, [i, j]], f)));
}
export function textsOf(seen) {
  const out = [];
  visit(seen.row, [], (row, path) => {
    row.items.forEach((item, index) => {
      if (item.symbol !== undefined && item.rect.width > 0) out.push({ path, index, rect: item.rect });
    });
  });
  return out;
}
export function emptyCells(seen) {
  const out = [];
  visit(seen.row, [], (row, path) => {
    if (!row.items.length && row.marks.length) out.push({ path, rect: row.marks[0].rect });
  });
  return out;
}
/** The horizontal range in which the caret of a place belongs. */
export function caretBounds(seen, path, offset) {
  const row = rowAt(seen, path);
  if (!row || offset > row.items.length) return null;
  const left = offset > 0 ? row.items[offset - 1].rect.right : union([row.rect, ...row.from.map(rectOf)]).left;
  const right = offset < row.items.length ? row.items[offset].rect.left : union([row.rect, ...row.from.map(rectOf)]).right;
  return { left, right };
}
export function boundsOfRow(seen, path) {
  const row = rowAt(seen, path);
  return row && { ...union([row.rect, ...row.from.map(rectOf)]), font: row.font };
}
/** Where the cells are that a selection of cells holds, and the others of that table. */
export function cellsOf(seen, path, index, range) {
  const table = rowAt(seen, path)?.items[index];
  if (!table?.rows) return null;
  const [w, first, last] = [table.width, range.start, Math.max(range.end - 1, range.start)];
  const between = (v, a, b) => v >= Math.min(a, b) && v <= Math.max(a, b);
  const held = (i) => between(i % w, first % w, last % w) && between(Math.floor(i / w), Math.floor(first / w), Math.floor(last / w));
  const bounds = (want) => table.rows.map((_, i) => i).filter((i) => held(i) === want).map((i) => boundsOfRow(seen, [...path, [index, i]]));
  return { held: bounds(true), others: bounds(false) };
}
export function itemsBetween(seen, path, lo, hi) {
  const row = rowAt(seen, path);
  return row ? row.items.slice(lo, hi).map((i) => i.rect) : [];
}

const px = (s) => (s === undefined || s === "" ? NaN : +String(s).replace("px", ""));
/** The carets as drawn, in viewport coordinates. */
export function caretParts(element) {
  const carets = [];
  const walk = (n, into) => {
    if (n.localName === "span" && n.className.split(" ").includes("caret")) {
      const box = rectOf(n.parentNode) ?? { x: 0, y: 0 };
      into = { caret: null, selections: [] };
      const h = px(n.style.height);
      into.caret = {
        visible: n.style.display !== "none",
        x: px(n.style.left) + box.x,
        // The caret starts below its upper margin
        bottom: px(n.style.top) + box.y + (px(n.style.marginTop) || 0) + (h > 0 ? h : 0),
        height: h,
      };
      carets.push({ owner: n.parentNode, ...into });
    }
    for (const c of [...(n.shadowRoot ? [n.shadowRoot] : []), ...n.childNodes]) walk(c, into);
  };
  walk(element, null);
  for (const c of carets) {
    const selections = [];
    const inside = (n) => {
      if (n.localName === "span" && n.className.split(" ").includes("caret-selection")) {
        const box = rectOf(c.owner) ?? { x: 0, y: 0 };
        selections.push({ x: px(n.style.left) + box.x, y: px(n.style.top) + box.y, width: px(n.style.width), height: px(n.style.height) });
      }
      n.childNodes.forEach(inside);
    };
    inside(c.owner);
    c.selections = selections;
    delete c.owner;
  }
  return carets;
}
export function size(nodes) {
  let count = 0;
  let deepest = 0;
  const go = (ns, d) => {
    deepest = Math.max(deepest, d);
    for (const n of ns) {
      count++;
      if (n?.Container) for (const r of n.Container[1]?.values ?? []) go(r?.values ?? [], d + 1);
    }
  };
  go(Array.isArray(nodes) ? nodes : [], 0);
  return { nodes: count, depth: deepest };
}

const MISSING = "\u00a0\u00a0";
/**
 * Compares how the formula is marked up with what it was read as.
 * @returns what is wrong, or null
 */
export function readAs(seen, tree, nameOf, styles) {
  const wrong = [];
  let checked = 0;
  const one = (row, tree, path) => {
    const marks = [];
    const tags = new Map();
    const bases = new Map();
    const at = (k) => `item ${k} of the row ${JSON.stringify(path)}`;
    const walk = (node, inBrackets) => {
      const name = nameOf(node.name);
      const { start, end } = node.range;
      const { Children: children, Leaf: leaf, NewRows: rows } = node.children;
      if (rows) {
        rows.values.forEach((v, j) => {
          const inner = row.items[start]?.rows?.[j];
          if (inner) one(inner, v, [...path, [start, j]]);
        });
      } else if (leaf) {
        let tag = "mi";
        if (name === "BuiltIn::Operator") tag = "mo";
        if (name === "BuiltIn::Whitespace") tag = "mspace";
        if (name === "Arithmetic::Number") tag = "mn";
        if (name === "String::String") tag = "mtext";
        if (name === "Error::UnknownToken") tag = "merror";
        for (let k = start; k < end; k++) tags.set(k, { tag, name, stretchy: tag === "mo" && inBrackets, first: start });
      } else if (name === "Error::MissingToken") marks.push(["missing", start]);
      else if (name === "BuiltIn::Nothing") marks.push(["nothing", start]);
      else {
        if (name === "BuiltIn::Sup" || name === "BuiltIn::Sub") bases.set(children[1].range.end - trailing(children[1], nameOf) - 1, children[0].range);
        const own = name === "Core::RoundBrackets" || (name === "BuiltIn::Whitespaces" && inBrackets);
        for (const c of children) walk(c, own);
      }
    };
    walk(tree, false);
    row.items.forEach((item, k) => {
      if (item.symbol !== undefined) {
        const want = tags.get(k);
        const tag = item.element.localName;
        if (!want) wrong.push(["shown-as-other", `${at(k)}, ${JSON.stringify(item.symbol)}, is shown as ${tag}, it was not read as a symbol`]);
        else if (want.tag !== tag) wrong.push(["shown-as-other", `${at(k)}, ${JSON.stringify(item.symbol)}, is shown as ${tag}, it was read as ${want.name}`]);
        else if (row.items[want.first].element !== item.element) wrong.push(["token-in-parts", `${at(k)}, ${JSON.stringify(item.symbol)}, is shown apart from the start of its ${want.name}`]);
        else if (k > 0 && row.items[k - 1].element === item.element && tags.get(k - 1).first !== want.first) {
          wrong.push(["token-in-parts", `${at(k)}, ${JSON.stringify(item.symbol)}, is shown as one with what is before it`]);
        } else if (want.stretchy && item.element.getAttribute("stretchy") === "false") wrong.push(["brackets-do-not-grow", `${at(k)}, ${JSON.stringify(item.symbol)}, does not grow with what it encloses`]);
        checked++;
      } else if (item.hangsOn) {
        const want = bases.get(k);
        if (!want || want.start !== item.hangsOn[0] || want.end !== item.hangsOn[1]) {
          wrong.push(["hangs-elsewhere", `the script that is ${at(k)} hangs on what is from ${item.hangsOn.join(" to ")}, it was read as belonging to ${JSON.stringify(want)}`]);
        }
        checked++;
      }
    });
    const shown = row.marks.map((m) => [m.node.data === MISSING ? "missing" : "nothing", m.at]);
    const order = (l) => JSON.stringify(l.map((m) => m.join(" before item ")).sort());
    if (order(shown) !== order(marks)) {
      wrong.push(["marks-differ", `in the row ${JSON.stringify(path)} these places are marked: ${order(shown)}, these are to be: ${order(marks)}`]);
    }
    for (const m of row.marks) {
      checked++;
      if (m.node.data !== MISSING) continue;
      const styled = m.element.className.split(" ").some((c) => c && new RegExp(`\\.${c}\\b[^{}]*\\{[^}]*(border|outline|decoration|background|color|shadow)`).test(styles));
      if (!styled && !m.element.getAttribute("style") && !within(m.element, "merror")) wrong.push(["mark-not-visible", `the mark before ${at(m.at)} is shown like empty space`]);
    }
  };
  one(seen.row, tree, []);
  return { wrong: wrong[0] ?? null, checked };
}
const within = (n, tag) => n && (n.localName === tag || within(n.parentNode, tag));
/** How many spaces follow an operator that is a script. */
function trailing(node, nameOf) {
  return nameOf(node.name) === "BuiltIn::Whitespaces" ? node.range.end - node.children.Children.find((c) => nameOf(c.name) !== "BuiltIn::Whitespace").range.end : 0;
}
