// What the demonstrations share: a page with an editor, and what can be done to it.
import { page, freshPage, fire, runTimer } from "./dom.mjs";
import { calls } from "./fakecore.mjs";
import { MathEditor } from "front-end/component/math-editor.ts";
customElements.define("math-editor", MathEditor);
freshPage();
export { page, fire, calls };
export function all(node, ok, out = []) {
  if (ok(node)) out.push(node);
  for (const c of [...(node.shadowRoot ? [node.shadowRoot] : []), ...node.childNodes]) all(c, ok, out);
  return out;
}
export function newEditor(formula) {
  const e = document.createElement("math-editor");
  if (formula !== undefined) e.setAttribute("mathml", formula);
  document.body.append(e);
  calls.length = 0;
  return e;
}
export const field = (e) => all(e, (n) => n.localName === "textarea")[0];
export const math = (e) => all(e, (n) => n.localName === "math")[0];
/** The symbols shown, with their rectangles. */
export function symbols(e) {
  return all(math(e), (n) => n.nodeType === 3 && n.data.trim() !== "").map((n) => {
    const r = document.createRange();
    r.selectNode(n);
    return { text: n.data, rect: r.getBoundingClientRect() };
  });
}
export const deferred = () => {
  while (runTimer());
};
export function expect(what, got, want) {
  if (JSON.stringify(got) === JSON.stringify(want)) return;
  process.stderr.write(`${what}: got ${JSON.stringify(got)}, expected ${JSON.stringify(want)}\n`);
  process.exit(1);
}
export const row = (...nodes) => ({ values: nodes.map((n) => (typeof n === "string" ? { Symbol: n } : n)) });
export const box = (kind, width, ...rows) => ({ Container: [kind, { values: rows, width }] });
export function done() {
  if (page.errors.length) {
    process.stderr.write(`the page failed: ${JSON.stringify(page.errors[0])}\n`);
    process.exit(1);
  }
  process.exit(0);
}
