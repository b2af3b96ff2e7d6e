// What all simulated programs share: the plan, the log and what is counted.
export class Violated extends Error {}
export class Foreign extends Error {}

export const same = (a, b) => JSON.stringify(a) === JSON.stringify(b);
export const short = (v) => {
  const s = JSON.stringify(v) ?? "nothing";
  return s.length > 600 ? s.slice(0, 600) + "..." : s;
};
export const pick = (list, n) => list[n % list.length];
export { graphemes } from "./segmenter.mjs";

export const TYPED = [
  "a", "b", "x", "y", "l", "i", "m", "s", "u", "p", "q", "r", "t", "1", "2", "3", "7", "0",
  "+", "-", "*", "/", "=", "<", ">", "!", ",", ";", ".", "^", "_", " ", '"', "'", "|", "&", "(", ")", "[", "]",
  "∑", "∫", "∞", "≥", "∧", "¬", "⇔", "é", "e\u0301", "👩‍👩‍👧", "ä", "中", "\\",
  "lim", "sum", "sqrt", "matrix", "vector", "infinity", ">=", "<=", "integral", "liminf", "12", "ab", "x+1", "a b", "f(x)",
  "abcdefghijklmnopqrst", "x+y-a*b/2=3>1", "12345678901234567890.5", '"twelve men and a cat"', "é中äα∑∞é中äα∑∞",
];

export class Base {
  constructor(plan) {
    this.cfg = plan.cfg;
    this.steps = plan.steps;
    this.log = [];
    this.events = 0;
    this.counters = {};
    this.schedule = [];
    this.states = [];
    this.did = 0;
  }
  event(text) {
    this.events++;
    this.log.push(text.toWellFormed());
  }
  count(k, n = 1) {
    this.counters[k] = (this.counters[k] ?? 0) + n;
  }
  fail(props, signature, message) {
    if (!props.includes(this.prop)) {
      this.count("run.ended_by_other_property");
      throw new Foreign(`${signature}: ${message}`);
    }
    const full = `${this.prop}/${signature}`;
    this.event(`VIOLATION ${full}: ${message}`);
    this.violation = { signature: full, message: message.toWellFormed() };
    throw new Violated();
  }
  /** Remembers a hash of a state. */
  state(v) {
    const h = JSON.stringify(v);
    let f = 0x811c9dc5;
    let g = 0;
    for (let i = 0; i < h.length; i++) {
      f = Math.imul(f ^ h.charCodeAt(i), 0x01000193) >>> 0;
      g = (Math.imul(g, 31) + h.charCodeAt(i)) >>> 0;
    }
    this.states.push((g & 0x1fffff) * 4294967296 + f);
  }
}
