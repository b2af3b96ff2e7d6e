// Stands where wasm-bindgen's generated module stands: the same classes and
// methods, over the addon that holds the real Rust core. Every call of an
// editor is recorded.
export const calls = [];
const addon = { exports: {} };
process.dlopen(addon, process.env.PAGE_CORE);

class CoreFailed extends Error {}
function revive(v) {
  if (v === null || typeof v !== "object") return v;
  if (Array.isArray(v)) return v.map(revive);
  const keys = Object.keys(v);
  if (keys.length === 1 && keys[0] === "$map") return new Map(v.$map.map(([k, x]) => [revive(k), revive(x)]));
  for (const k of keys) v[k] = revive(v[k]);
  return v;
}
export function call(f, self, ...args) {
  const message = { f, this: self ?? null, args: args.map((a) => a ?? null) };
  let text = JSON.stringify(message);
  // Strings cross the boundary as UTF-8: half a character becomes a replacement character
  if (/\\ud[89a-f]/.test(text)) text = JSON.stringify(message, (_, v) => (typeof v === "string" ? v.toWellFormed() : v));
  const answer = JSON.parse(addon.exports.call(text));
  if ("panic" in answer) throw new CoreFailed(`the core stopped: ${answer.panic}`);
  // wasm-bindgen throws the Err value itself
  if ("err" in answer) throw typeof answer.err === "string" ? new Error(answer.err) : answer.err;
  return revive(answer.ok);
}
class Handle {
  h;
  free() {
    call("free", this.h);
  }
}
const of = (cls, h) => {
  const o = Object.create(cls.prototype);
  o.h = h;
  return o;
};
export class BoxedParseModule extends Handle {}
export class ParseModulesBindings extends Handle {
  constructor() {
    super();
    this.h = call("modules.new");
  }
  get_built_in() {
    return of(BoxedParseModule, call("get_built_in", this.h));
  }
  get_syntax_node_name_map() {
    return call("get_syntax_node_name_map", this.h);
  }
}
export class ParseModulesCreator {}
for (const f of [
  "make_core",
  "make_arithmetic",
  "make_calculus",
  "make_collections",
  "make_comparison",
  "make_function",
  "make_logic",
  "make_string",
  // Of the simulated program, not of the page
  "make_own0",
  "make_own1",
]) {
  ParseModulesCreator[f] = (m) => of(BoxedParseModule, call("make", null, m.h, f));
}
export class ParseModuleCollectionBindings extends Handle {
  constructor(m) {
    super();
    this.h = call("collection.new", null, m.h);
  }
  add_module(m) {
    call("add_module", this.h, m.h);
  }
}
export class MathParserBindings extends Handle {
  constructor(c) {
    super();
    this.h = call("parser.new", null, c.h);
  }
}
export class MathEditorBindings extends Handle {
  constructor(p) {
    super();
    this.h = call("editor.new", null, p.h);
    calls.push({ f: "new", editor: this });
  }
}
/** An editor of the core without bindings, for the simulator's own use. */
export class Mirror extends Handle {
  constructor(p, h) {
    super();
    this.h = h ?? call("mirror.new", null, p.h);
  }
}
const METHODS = [
  "focus",
  "unfocus",
  "move_caret",
  "select_with_caret",
  "remove_at_caret",
  "insert_at_caret",
  "select_all",
  "undo",
  "redo",
  "start_selection",
  "extend_selection",
  "finish_selection",
  "copy",
  "paste",
  "open_autocomplete",
  "finish_autocomplete",
  "move_in_autocomplete",
  "get_autocomplete",
  "get_caret",
  "get_input_tree",
  "get_syntax_tree",
  "splice_at_range",
];
for (const f of METHODS) {
  Mirror.prototype[f] = function (...args) {
    return call(f, this.h, ...args);
  };
}
for (const f of METHODS) {
  MathEditorBindings.prototype[f] = function (...args) {
    calls.push({ f, editor: this, args });
    const v = call(f, this.h, ...args);
    return f === "get_autocomplete" ? v ?? undefined : v;
  };
}
export default async function init() {}
