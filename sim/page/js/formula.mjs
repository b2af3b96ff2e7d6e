// Formulas as a host page writes them: a formula drawn from a number, the
// document it stands for, and its MathML in different but equivalent forms.
import { graphemes } from "./segmenter.mjs";
class Draw {
  constructor(seed) {
    this.s = (seed * 2654435761 + 12345) >>> 0;
  }
  below(n) {
    this.s = (Math.imul(this.s ^ (this.s >>> 15), 0x2c1b3c6d) + 0x9e3779b9) >>> 0;
    let x = this.s;
    x = Math.imul(x ^ (x >>> 13), 0x297a2d39) >>> 0;
    return ((x ^ (x >>> 16)) >>> 0) % n;
  }
}
// White space in MathML is what can be typed; other spaces are symbols like any other
const LETTERS = ["a", "b", "x", "y", "α", "é", "中", "f", "\u00a0", "\u2009"];
const DIGITS = ["0", "1", "2", "3", "7", "9"];
const OPERATORS = ["+", "-", "*", "=", "<", ">", ",", "!", "∑", "∧", "&", "'", "lim", "cat", ">=", "∞", "\u00a0", "\u2062", "−"];
const NAMES = ["a", "b", "x", "y", "α", "é", "中", "f", "sin", "ab", "👩‍👩‍👧", "e\u0301", "\u2003"];
const sym = (s) => ({ Symbol: s.normalize("NFD") });
const row = (ns) => ({ values: ns });
const con = (v, width, rows) => ({ Container: [v, { values: rows.map(row), width }] });

/** A tree of MathML-like elements together with the nodes it stands for. */
function parts(d, budget, depth) {
  const n = budget.left <= 0 ? 0 : budget.big === 3 && depth < 5 ? 1 + d.below(2) : d.below(depth === 0 ? 5 : 4);
  const out = [];
  for (let i = 0; i < n; i++) out.push(part(d, budget, depth));
  return out;
}
/** What an editor does not know, or what lacks parts. */
const ODD = [
  '<mspace width="1em"/>',
  "<mspace></mspace>",
  "<mfenced><mi>q</mi><mi>r</mi></mfenced>",
  "<menclose><mi>q</mi></menclose>",
  "<mphantom><mfrac><mi>q</mi><mi>r</mi></mfrac></mphantom>",
  "<mprescripts/>",
  "<mfrac><mi>q</mi></mfrac>",
  "<mfrac></mfrac>",
  "<mroot><mi>q</mi></mroot>",
  "<mroot><mi>q</mi><mi>r</mi><mi>s</mi></mroot>",
  "<msup><mi>q</mi></msup>",
  "<msub><mi>q</mi><mi>r</mi><mi>s</mi></msub>",
  "<msub></msub>",
  "<msup />",
  "<msubsup></msubsup>",
  "<msubsup><mi>q</mi><mi>r</mi></msubsup>",
  "<munder></munder>",
  "<mover><mi>q</mi></mover>",
  "<munderover><mi>q</mi><mi>r</mi></munderover>",
  "<mtable></mtable>",
  "<mtable><mtr></mtr></mtable>",
  "<mtable><mtd><mi>q</mi></mtd></mtable>",
  "<mtable><mtr><mi>q</mi></mtr></mtable>",
  "<semantics></semantics>",
  "<none></none>",
];
/** Whether a document is the expected one, in which one place may hold anything. */
export function sameButOdd(got, want) {
  if (!Array.isArray(got)) return false;
  const k = want.findIndex((n) => n.Odd);
  const node = (a, b) => {
    if (!a || !b.Container) return JSON.stringify(a) === JSON.stringify(b);
    const [v, g] = b.Container;
    const c = a.Container;
    return (
      !!c && c[0] === v && c[1].width === g.width && c[1].values.length === g.values.length &&
      g.values.every((r, i) => sameButOdd(c[1].values[i].values, r.values))
    );
  };
  if (k < 0) return got.length === want.length && want.every((n, i) => node(got[i], n));
  const after = want.length - 1 - k;
  return (
    got.length >= want.length - 1 &&
    want.slice(0, k).every((n, i) => node(got[i], n)) &&
    want.slice(k + 1).every((n, i) => node(got[got.length - after + i], n))
  );
}
function part(d, budget, depth) {
  budget.left--;
  if (budget.odd && d.below(4) === 0) {
    budget.odd = false;
    return { raw: ODD[d.below(ODD.length)], nodes: [{ Odd: true }] };
  }
  const deep = depth < (budget.big === 3 ? 5 : 3) && budget.left > 0;
  const more = deep && (budget.big === 3 ? d.below(4) > 0 : budget.big === 2);
  const k = more ? (budget.big === 2 ? 16 : 7 + d.below(10)) : d.below(deep ? 17 : 7);
  if (k < 2) {
    const long = budget.big === 1 && d.below(2) === 0;
    const s = long ? Array.from({ length: 4 + d.below(20) }, () => NAMES[d.below(NAMES.length)]).join("") : NAMES[d.below(NAMES.length)];
    return { tag: "mi", text: s, nodes: graphemes(s).map(sym) };
  }
  if (k < 4) {
    const m = budget.big === 1 ? 1 + d.below(30) : 1 + d.below(3);
    const ds = Array.from({ length: m }, () => DIGITS[d.below(DIGITS.length)]);
    if (d.below(4) === 0) ds.splice(d.below(m), 0, d.below(3) ? "." : "-");
    return { tag: "mn", text: ds.join(""), nodes: ds.map(sym) };
  }
  if (k < 6) {
    const s = OPERATORS[d.below(OPERATORS.length)];
    return { tag: "mo", text: s, nodes: graphemes(s).map(sym) };
  }
  if (k === 6) {
    const ls = Array.from({ length: d.below(budget.big === 1 ? 40 : 4) }, () => LETTERS[d.below(LETTERS.length)]);
    if (ls.length > 1 && d.below(2)) ls.splice(1 + d.below(ls.length - 1), 0, " ");
    return { tag: d.below(2) ? "mtext" : "ms", text: ls.join(""), nodes: [sym('"'), ...ls.map(sym), sym('"')] };
  }
  const cell = () => {
    const kids = parts(d, budget, depth + 1);
    return { tag: "mrow", kids, nodes: kids.flatMap((p) => p.nodes) };
  };
  const base = () => {
    const k = d.below(8);
    return k < 2 ? cell() : part(d, budget, k < 4 ? depth + 1 : 9);
  };
  switch (k) {
    case 7:
    case 8: {
      const [a, b] = [cell(), cell()];
      return { tag: "mfrac", kids: [a, b], nodes: [con("Fraction", 1, [a.nodes, b.nodes])] };
    }
    case 9: {
      const [b, s] = [base(), cell()];
      return { tag: d.below(3) ? "msup" : "mover", kids: [b, s], nodes: [...b.nodes, con("Sup", 1, [s.nodes])] };
    }
    case 10: {
      const [b, s] = [base(), cell()];
      return { tag: d.below(3) ? "msub" : "munder", kids: [b, s], nodes: [...b.nodes, con("Sub", 1, [s.nodes])] };
    }
    case 11: {
      const [b, s, t] = [base(), cell(), cell()];
      return {
        tag: d.below(2) ? "msubsup" : "munderover",
        kids: [b, s, t],
        nodes: [...b.nodes, con("Sub", 1, [s.nodes]), con("Sup", 1, [t.nodes])],
      };
    }
    case 12: {
      const kids = parts(d, budget, depth + 1);
      return { tag: "msqrt", kids, nodes: [con("Root", 2, [[sym("2")], kids.flatMap((p) => p.nodes)])] };
    }
    case 13: {
      const [b, i] = [cell(), cell()];
      return { tag: "mroot", kids: [b, i], nodes: [con("Root", 2, [i.nodes, b.nodes])] };
    }
    case 14: {
      let kids = parts(d, budget, depth + 1);
      const nodes = kids.flatMap((p) => p.nodes);
      // Rows in rows mean nothing
      for (let k = budget.big === 3 ? d.below(16) : 0; k > 0; k--) kids = [{ tag: d.below(3) ? "mrow" : "mstyle", kids, nodes }];
      return { tag: d.below(3) ? "mrow" : "mstyle", kids, nodes };
    }
    case 15: {
      const inner = cell();
      return {
        tag: "semantics",
        kids: [inner, { tag: "annotation", text: "x<y", nodes: [] }],
        nodes: inner.nodes,
      };
    }
    default: {
      const most = budget.big === 2 ? 10 : 3;
      const [h, w] = [1 + d.below(most), 1 + d.below(most)];
      if (budget.big === 2) budget.big = 0;
      // Rows of a table may be shorter than others
      const rows = Array.from({ length: h }, () => Array.from({ length: d.below(3) === 0 ? d.below(w + 1) : w }, cell));
      if (rows.every((r) => r.length === 0)) rows[d.below(h)].push(cell());
      const width = Math.max(...rows.map((r) => r.length));
      const cells = rows.flatMap((r) => Array.from({ length: width }, (_, j) => r[j]?.nodes ?? []));
      return {
        tag: "mtable",
        kids: rows.map((r) => ({ tag: "mtr", kids: r.map((c) => ({ ...c, tag: "mtd" })) })),
        nodes: [con("Table", width, cells)],
      };
    }
  }
}
const NAMED = { "\u00a0": "&nbsp;", "α": "&alpha;", "∑": "&sum;", "∞": "&infin;", "∧": "&and;", "é": "&eacute;", "<": "&lt;", "&": "&amp;" };
export function drawFormula(seed, budget, odd = false) {
  const d = new Draw(seed);
  // Some formulas have long texts, large tables or deep nesting
  const big = [1, 2, 3, 3][d.below(36)] ?? 0;
  const kids = parts(d, { left: budget, odd, big }, 0);
  return { seed, kids, nodes: kids.flatMap((p) => p.nodes) };
}

const escape = (s) => s.replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;");
/** The MathML of a formula; `style` 0 is plain, others vary spaces, case, entities and attributes. */
export function markup(formula, style) {
  const d = new Draw(style);
  const plain = style === 0;
  const gap = () => (plain || d.below(3) ? "" : ["\n", "  ", "<!-- . -->"][d.below(3)]);
  const text = (s) => {
    let t = escape(s);
    const odd = plain ? 9 : d.below(15);
    if (odd < 2) t = [...s].map((c) => `&#${c.codePointAt(0)};`).join("");
    else if (odd === 2) t = [...s].map((c) => `&#x${c.codePointAt(0).toString(16)};`).join("");
    else if (odd === 3) t = [...s].map((c) => NAMED[c] ?? escape(c)).join("");
    else if (odd < 7) t = t.replaceAll(" ", ["  ", "\n", " \t "][odd - 4]);
    else if (!plain && d.below(7) === 0) t = `<!--|-->${t}<!-- > -->`;
    return plain || d.below(4) ? t : `  ${t}\n`;
  };
  const one = (p) => {
    if (p.raw) return p.raw;
    const name = !plain && d.below(9) === 0 ? p.tag.toUpperCase() : p.tag;
    const attrs = plain || d.below(4) ? "" : [' class="x"', " mathvariant='bold'", " display=block"][d.below(3)];
    const inner = p.text !== undefined ? text(p.text) : p.kids.map((k) => gap() + one(k)).join("") + gap();
    // A row of one element needs no mrow
    if (p.tag === "mrow" && p.kids.length === 1 && !plain && d.below(2)) return one(p.kids[0]);
    if (!plain && inner === "" && d.below(2)) return `<${name}${attrs} />`;
    return `<${name}${attrs}>${inner}</${name}>`;
  };
  const outer = plain ? "" : ["", "", ' display="block"', ' xmlns="http://www.w3.org/1998/Math/MathML"'][d.below(4)];
  const before = plain ? "" : ["", "", "\n  ", "<!-- <mi>x</mi> -->"][d.below(4)];
  return `${before}<math${outer}>${formula.kids.map((k) => gap() + one(k)).join("")}${gap()}</math>`;
}
