// A small stand-in for the core of the editor, for demonstrations of the front
// end: a document, a caret, and a syntax tree with one node for every element.
export const calls = [];
const NAMES = [
  ["BuiltIn", "Nothing"], ["BuiltIn", "Operator"], ["BuiltIn", "Fraction"], ["BuiltIn", "Sup"], ["BuiltIn", "Sub"], ["BuiltIn", "Root"],
  ["BuiltIn", "Table"], ["Core", "Variable"], ["Arithmetic", "Number"], ["Function", "FunctionApplication"], ["Core", "RoundBrackets"],
  ["Error", "MissingToken"], ["Error", "UnknownToken"], ["Arithmetic", "Add"], ["Calculus", "Lim"], ["String", "String"], ["BuiltIn", "Whitespace"], ["BuiltIn", "Whitespaces"],
];
/** Set by a demonstration that says itself how a document is read. */
export const reading = { as: null };
/** A node of the syntax tree. */
export const syntax = (name, start, end, children) => ({ name: id(name), range: { start, end }, children });
export const leaf = (name, start, ...symbols) => syntax(name, start, start + symbols.length, { Leaf: { node_type: "Terminal", symbols } });

const id = (name) => NAMES.findIndex((n) => n[1] === name);
function tree(row) {
  const nodes = row.values;
  if (!nodes.length) return { name: id("Nothing"), range: { start: 0, end: 0 }, children: { Children: [] } };
  const parts = [];
  for (let i = 0; i < nodes.length; i++) {
    const range = { start: i, end: i + 1 };
    const n = nodes[i];
    if (n.Symbol !== undefined) {
      // Digits that follow each other are one number
      let end = i;
      while (/^[0-9]$/.test(nodes[end]?.Symbol ?? "")) end++;
      if (end > i) {
        parts.push({ name: id("Number"), range: { start: i, end }, children: { Leaf: { node_type: "Terminal", symbols: nodes.slice(i, end).map((x) => x.Symbol) } } });
        i = end - 1;
      } else parts.push({ name: id("Variable"), range, children: { Leaf: { node_type: "Terminal", symbols: [n.Symbol] } } });
      continue;
    }
    const [kind, grid] = n.Container;
    const rows = { NewRows: { values: grid.values.map(tree), width: grid.width } };
    if (kind === "Sup" || kind === "Sub") {
      const base = parts.pop();
      parts.push({ name: id(kind), range: { start: base.range.start, end: i + 1 }, children: { Children: [base, { name: id("Operator"), range, children: rows }] } });
    } else parts.push({ name: id(kind), range, children: rows });
  }
  if (parts.length === 1) return parts[0];
  return { name: id("FunctionApplication"), range: { start: 0, end: nodes.length }, children: { Children: parts } };
}
export class BoxedParseModule {}
export class ParseModulesBindings {
  get_built_in() {
    return new BoxedParseModule();
  }
  get_syntax_node_name_map() {
    return { values: new Map(NAMES.map((n, i) => [n, i])) };
  }
}
export class ParseModulesCreator {}
for (const f of ["core", "arithmetic", "calculus", "collections", "comparison", "function", "logic", "string"]) {
  ParseModulesCreator[`make_${f}`] = () => new BoxedParseModule();
}
export class ParseModuleCollectionBindings {
  add_module() {}
}
export class MathParserBindings {}
export class MathEditorBindings {
  doc = { values: [] };
  caret = [{ Row: { row_indices: [], start: 0, end: 0 } }];
  get_syntax_tree() {
    return reading.as ? reading.as(this.doc) : tree(this.doc);
  }
  get_input_tree() {
    return this.doc;
  }
  get_caret() {
    return this.caret;
  }
  splice_at_range(range, values) {
    calls.push(["splice_at_range", range, values]);
    this.doc.values.splice(range.start, range.end - range.start, ...values);
  }
  insert_at_caret(values) {
    calls.push(["insert_at_caret", values]);
    const at = this.caret[0].Row.start;
    this.doc.values.splice(at, 0, ...values.map((v) => ({ Symbol: v })));
    this.caret = [{ Row: { row_indices: [], start: at + values.length, end: at + values.length } }];
  }
  copy(type) {
    calls.push(["copy", type]);
    return JSON.stringify(this.doc.values);
  }
}
for (const f of ["move_caret", "remove_at_caret", "undo", "redo", "start_selection", "extend_selection", "finish_selection", "paste", "select_all", "focus", "unfocus"]) {
  MathEditorBindings.prototype[f] = function (...args) {
    calls.push([f, ...args]);
  };
}
export default async function init() {}
