// A document object model for the simulated page: exactly what the front end
// uses of a browser, with a plain, deterministic layout. No clock, no
// randomness: timers only run when the simulator runs them.
const HTML = "http://www.w3.org/1999/xhtml";
const MATHML = "http://www.w3.org/1998/Math/MathML";

let version = 1;
function dirty() {
  version++;
}

class FakeEventTarget {
  #listeners = new Map();
  addEventListener(type, fn, options) {
    if (!fn) return;
    if (!this.#listeners.has(type)) this.#listeners.set(type, []);
    const list = this.#listeners.get(type);
    const o = typeof options === "object" && options ? options : { capture: !!options };
    if (o.signal?.aborted) return;
    if (list.some((l) => l.fn === fn && l.capture === !!o.capture)) return;
    list.push({ fn, capture: !!o.capture, once: !!o.once });
    o.signal?.addEventListener("abort", () => this.removeEventListener(type, fn, o));
  }
  removeEventListener(type, fn, options) {
    const list = this.#listeners.get(type) ?? [];
    const capture = typeof options === "object" && options ? !!options.capture : !!options;
    const i = list.findIndex((l) => l.fn === fn && l.capture === capture);
    if (i >= 0) list.splice(i, 1);
  }
  listenersOf(type, capture) {
    return (this.#listeners.get(type) ?? []).filter((l) => l.capture === capture);
  }
  dispatchEvent(ev) {
    const bubbles = !!ev.bubbles;
    return !fire(this, ev.type, ev instanceof FakeEvent ? ev : { detail: ev.detail }, bubbles).defaultPrevented;
  }
}

class FakeNode extends FakeEventTarget {
  parentNode = null;
  childNodes = [];
  get parentElement() {
    return this.parentNode instanceof FakeElement ? this.parentNode : null;
  }
  get isConnected() {
    let n = this;
    for (;;) {
      if (n === page.document) return true;
      const up = n.parentNode ?? n.host ?? null;
      if (!up) return false;
      n = up;
    }
  }
  get children() {
    return this.childNodes.filter((c) => c instanceof FakeElement);
  }
  get childElementCount() {
    return this.children.length;
  }
  get firstElementChild() {
    return this.children[0] ?? null;
  }
  get lastElementChild() {
    return this.children[this.children.length - 1] ?? null;
  }
  get firstChild() {
    return this.childNodes[0] ?? null;
  }
  get lastChild() {
    return this.childNodes[this.childNodes.length - 1] ?? null;
  }
  get nodeType() {
    return this instanceof FakeText ? 3 : this instanceof FakeElement ? 1 : this instanceof FakeFragment ? 11 : 9;
  }
  get ownerDocument() {
    return page.document;
  }
  getRootNode() {
    let n = this;
    while (n.parentNode) n = n.parentNode;
    return n;
  }
  hasChildNodes() {
    return this.childNodes.length > 0;
  }
  #beside(step, list) {
    const all = list ?? this.parentNode?.childNodes ?? [];
    return all[all.indexOf(this) + step] ?? null;
  }
  get nextSibling() {
    return this.#beside(1);
  }
  get previousSibling() {
    return this.#beside(-1);
  }
  get nextElementSibling() {
    return this.#beside(1, this.parentNode?.children);
  }
  get previousElementSibling() {
    return this.#beside(-1, this.parentNode?.children);
  }
  before(...nodes) {
    for (const n of nodes) this.parentNode?.insertBefore(typeof n === "string" ? new FakeText(n) : n, this);
  }
  after(...nodes) {
    const next = this.nextSibling;
    for (const n of nodes) this.parentNode?.insertBefore(typeof n === "string" ? new FakeText(n) : n, next);
  }
  querySelectorAll(selector) {
    const out = [];
    const walk = (n) => {
      for (const c of n.children) {
        if (c.matches(selector)) out.push(c);
        walk(c);
      }
    };
    walk(this);
    return out;
  }
  querySelector(selector) {
    return this.querySelectorAll(selector)[0] ?? null;
  }
  getElementsByTagName(name) {
    return this.querySelectorAll(name.toLowerCase());
  }
  getElementsByClassName(name) {
    return this.querySelectorAll(`.${name}`);
  }
  getElementById(id) {
    return this.querySelector(`#${id}`);
  }
  cloneNode(deep = false) {
    let copy;
    if (this instanceof FakeText) return new FakeText(this.data);
    if (this instanceof FakeElement) {
      copy = page.document.createElementNS(this.namespaceURI, this.localName);
      for (const [k, v] of this.attributes_) copy.attributes_.set(k, v);
      copy.className = this.className;
      Object.assign(copy.style, this.style);
    } else copy = new FakeFragment();
    if (deep) copy.append(...this.childNodes.map((c) => c.cloneNode(true)));
    return copy;
  }
  get textContent() {
    return this.childNodes.map((c) => c.textContent).join("");
  }
  set textContent(v) {
    this.replaceChildren(...(v === "" || v == null ? [] : [String(v)]));
  }
  normalize() {}
  isSameNode(other) {
    return this === other;
  }
  compareDocumentPosition(other) {
    if (this === other) return 0;
    const up = (n) => {
      const list = [];
      for (let x = n; x; x = x.parentNode) list.unshift(x);
      return list;
    };
    const [a, b] = [up(this), up(other)];
    if (a[0] !== b[0]) return 1;
    let i = 0;
    while (a[i] && a[i] === b[i]) i++;
    if (!a[i]) return 16 + 4;
    if (!b[i]) return 8 + 2;
    const kids = a[i].parentNode.childNodes;
    return kids.indexOf(a[i]) < kids.indexOf(b[i]) ? 4 : 2;
  }
  contains(other) {
    for (let n = other; n; n = n.parentNode) if (n === this) return true;
    return false;
  }
  insertBefore(node, before) {
    if (!(node instanceof FakeNode)) throw new TypeError("parameter 1 is not of type 'Node'");
    if (node.contains(this)) throw new Error("HierarchyRequestError");
    if (node instanceof FakeFragment) {
      for (const c of [...node.childNodes]) this.insertBefore(c, before);
      return node;
    }
    if (before === node) before = node.parentNode.childNodes[node.parentNode.childNodes.indexOf(node) + 1] ?? null;
    node.remove();
    const at = before ? this.childNodes.indexOf(before) : this.childNodes.length;
    if (at < 0) throw new Error("NotFoundError");
    this.childNodes.splice(at, 0, node);
    node.parentNode = this;
    dirty();
    if (this.isConnected) connected(node);
    return node;
  }
  appendChild(node) {
    return this.insertBefore(node, null);
  }
  append(...nodes) {
    for (const n of nodes) this.appendChild(typeof n === "string" ? new FakeText(n) : n);
  }
  prepend(...nodes) {
    const first = this.firstChild;
    for (const n of nodes) this.insertBefore(typeof n === "string" ? new FakeText(n) : n, first);
  }
  removeChild(node) {
    if (node.parentNode !== this) throw new Error("NotFoundError");
    node.remove();
    return node;
  }
  replaceChild(node, old) {
    this.insertBefore(node, old);
    return this.removeChild(old);
  }
  remove() {
    const p = this.parentNode;
    if (!p) return;
    const was = this.isConnected;
    p.childNodes.splice(p.childNodes.indexOf(this), 1);
    this.parentNode = null;
    dirty();
    if (was) disconnected(this);
  }
  replaceWith(...nodes) {
    const p = this.parentNode;
    if (!p) return;
    for (const n of nodes) p.insertBefore(typeof n === "string" ? new FakeText(n) : n, this);
    this.remove();
  }
  replaceChildren(...nodes) {
    for (const c of [...this.childNodes]) c.remove();
    this.append(...nodes);
  }
}
function connected(node) {
  node.connectedCallback?.();
  if (node.shadowRoot) connected(node.shadowRoot);
  for (const c of [...node.childNodes]) connected(c);
}
function disconnected(node) {
  // What is taken out of the page is no longer focused
  if (page.document?.activeElement === node) page.document.activeElement = null;
  for (const [id, e] of page.capture ?? []) if (e === node) page.capture.delete(id);
  node.disconnectedCallback?.();
  if (node.shadowRoot) disconnected(node.shadowRoot);
  for (const c of [...node.childNodes]) disconnected(c);
}

class FakeText extends FakeNode {
  #data;
  constructor(data) {
    super();
    this.#data = String(data);
  }
  get data() {
    return this.#data;
  }
  set data(v) {
    this.#data = String(v);
    dirty();
  }
  get nodeValue() {
    return this.#data;
  }
  get length() {
    return this.#data.length;
  }
  get wholeText() {
    return this.#data;
  }
  set nodeValue(v) {
    this.data = v;
  }
  appendData(v) {
    this.data += v;
  }
  get textContent() {
    return this.#data;
  }
  set textContent(v) {
    this.data = v;
  }
}
class FakeFragment extends FakeNode {}
class FakeShadowRoot extends FakeFragment {
  host = null;
  get activeElement() {
    const a = page.document.activeElement;
    return a?.getRootNode() === this ? a : null;
  }
}

/** Inline styles: plain properties, and the methods of a style declaration. */
function styles() {
  const camel = (n) => (n.startsWith("--") ? n : n.replace(/-([a-z])/g, (_, c) => c.toUpperCase()));
  return Object.create({
    setProperty(n, v) {
      this[camel(n)] = v ?? "";
    },
    removeProperty(n) {
      delete this[camel(n)];
    },
    getPropertyValue(n) {
      return this[camel(n)] ?? "";
    },
    getPropertyPriority() {
      return "";
    },
    get cssText() {
      return Object.keys(this).filter((k) => this[k] !== "").map((k) => `${CAMEL(k)}: ${this[k]};`).join(" ");
    },
    set cssText(text) {
      for (const k of Object.keys(this)) delete this[k];
      for (const d of String(text).split(";")) {
        const i = d.indexOf(":");
        if (i > 0) this[camel(d.slice(0, i).trim())] = d.slice(i + 1).trim();
      }
    },
  });
}
const CAMEL = (n) => n.replace(/[A-Z]/g, (c) => `-${c.toLowerCase()}`);
class FakeElement extends FakeNode {
  attributes_ = new Map();
  style = styles();
  hidden = false;
  get dataset() {
    return new Proxy(
      {},
      {
        get: (_, k) => this.getAttribute(`data-${CAMEL(String(k))}`) ?? undefined,
        set: (_, k, v) => (this.setAttribute(`data-${CAMEL(String(k))}`, v), true),
        has: (_, k) => this.hasAttribute(`data-${CAMEL(String(k))}`),
      }
    );
  }
  set id(v) {
    this.setAttribute("id", v);
  }
  toggleAttribute(name, force) {
    const want = force ?? !this.hasAttribute(name);
    if (want) this.setAttribute(name, this.getAttribute(name) ?? "");
    else this.removeAttribute(name);
    return want;
  }
  setAttributeNS(_, name, value) {
    this.setAttribute(name, value);
  }
  getAttributeNS(_, name) {
    return this.getAttribute(name);
  }
  removeAttributeNS(_, name) {
    this.removeAttribute(name);
  }
  hasAttributes() {
    return this.attributes_.size > 0;
  }
  insertAdjacentText(where, text) {
    this.insertAdjacentElement(where, new FakeText(text));
  }
  checkVisibility() {
    return this.isConnected;
  }
  animate() {
    return { cancel() {}, finish() {}, finished: Promise.resolve() };
  }
  get offsetLeft() {
    return rectOf(this).x;
  }
  get offsetTop() {
    return rectOf(this).y;
  }
  get scrollWidth() {
    return rectOf(this).width;
  }
  get scrollHeight() {
    return rectOf(this).height;
  }
  scrollTop = 0;
  scrollLeft = 0;
  get offsetParent() {
    return page.document.body;
  }
  getAttributeNames() {
    return [...this.attributes_.keys()];
  }
  get attributes() {
    return [...this.attributes_].map(([name, value]) => ({ name, value }));
  }
  /** Lists of compounds of tag, class, id and attribute, with descendants and children. */
  matches(selector) {
    const one = (e, compound) => {
      const m = compound.match(/^([a-z][\w-]*|\*)?((?:[.#][\w-]+|\[[^\]]+\])*)$/i);
      if (!m) throw new Error(`SyntaxError: ${selector}`);
      if (m[1] && m[1] !== "*" && m[1].toLowerCase() !== e.localName) return false;
      return [...m[2].matchAll(/\.([\w-]+)|#([\w-]+)|\[([^\]=]+)(?:=["']?([^"'\]]*)["']?)?\]/g)].every(([, c, id, a, v]) =>
        c ? e.classList.contains(c) : id ? e.id === id : e.hasAttribute(a) && (v === undefined || e.getAttribute(a) === v)
      );
    };
    const chain = (e, parts) => {
      if (!one(e, parts.at(-1))) return false;
      if (parts.length === 1) return true;
      if (parts.at(-2) === ">") return !!e.parentElement && chain(e.parentElement, parts.slice(0, -2));
      for (let p = e.parentElement; p; p = p.parentElement) if (chain(p, parts.slice(0, -1))) return true;
      return false;
    };
    return selector.split(",").some((s) => chain(this, s.trim().replace(/\s*>\s*/g, " > ").split(/\s+/)));
  }
  closest(selector) {
    for (let e = this; e; e = e.parentElement) if (e.matches(selector)) return e;
    return null;
  }
  insertAdjacentElement(where, e) {
    if (where === "beforebegin") this.before(e);
    else if (where === "afterbegin") this.prepend(e);
    else if (where === "beforeend") this.append(e);
    else this.after(e);
    return e;
  }
  insertAdjacentHTML(where, text) {
    for (const n of parse(text)) this.insertAdjacentElement(where, n);
  }
  getClientRects() {
    return [rectOf(this)];
  }
  click() {
    fire(this, "click");
  }
  scrollIntoView() {}
  get innerHTML() {
    return this.childNodes.map(print).join("");
  }
  get innerText() {
    return this.textContent;
  }
  get offsetWidth() {
    return rectOf(this).width;
  }
  get offsetHeight() {
    return rectOf(this).height;
  }
  get clientWidth() {
    return rectOf(this).width;
  }
  get clientHeight() {
    return rectOf(this).height;
  }
  className = "";
  shadowRoot = null;
  namespaceURI = HTML;
  localName = "";
  get tagName() {
    return this.namespaceURI === HTML ? this.localName.toUpperCase() : this.localName;
  }
  get nodeName() {
    return this.tagName;
  }
  get classList() {
    const words = () => this.className.split(/\s+/).filter((w) => w);
    return {
      add: (...ws) => {
        const have = words();
        for (const w of ws) if (!have.includes(w)) have.push(w);
        this.className = have.join(" ");
      },
      remove: (...ws) => {
        this.className = words()
          .filter((w) => !ws.includes(w))
          .join(" ");
      },
      contains: (w) => words().includes(w),
      toggle: (w, force) => {
        const want = force ?? !words().includes(w);
        this.className = [...words().filter((x) => x !== w), ...(want ? [w] : [])].join(" ");
        return want;
      },
      replace: (a, b) => {
        this.className = words()
          .map((x) => (x === a ? b : x))
          .join(" ");
      },
      [Symbol.iterator]: () => words()[Symbol.iterator](),
      get length() {
        return words().length;
      },
    };
  }
  get id() {
    return this.getAttribute("id") ?? "";
  }
  getAttribute(name) {
    return this.attributes_.get(name) ?? null;
  }
  hasAttribute(name) {
    return this.attributes_.has(name);
  }
  setAttribute(name, value) {
    const old = this.getAttribute(name);
    if (name === "class") this.className = String(value);
    if (name === "style") this.style.cssText = value;
    if (name === "tabindex") this.tabIndex = +value;
    this.attributes_.set(name, String(value));
    if (this.constructor.observedAttributes?.includes(name)) {
      this.attributeChangedCallback?.(name, old, String(value));
    }
  }
  removeAttribute(name) {
    const old = this.getAttribute(name);
    if (!this.attributes_.delete(name)) return;
    if (this.constructor.observedAttributes?.includes(name)) {
      this.attributeChangedCallback?.(name, old, null);
    }
  }
  attachShadow() {
    const root = new FakeShadowRoot();
    root.host = this;
    this.shadowRoot = root;
    return root;
  }
  set innerHTML(text) {
    this.replaceChildren(...parse(String(text)));
  }
  set innerText(text) {
    this.textContent = text;
  }
  get outerHTML() {
    return print(this);
  }
  getBoundingClientRect() {
    return rectOf(this);
  }
  setPointerCapture(id) {
    if (!page.pointers.has(id)) throw new Error("NotFoundError: no such pointer");
    page.capture.set(id, this);
  }
  releasePointerCapture(id) {
    if (!page.pointers.has(id)) throw new Error("NotFoundError: no such pointer");
    page.capture.delete(id);
  }
  hasPointerCapture(id) {
    return page.capture.get(id) === this;
  }
}
class FakeHTMLElement extends FakeElement {
  constructor() {
    super();
    const name = page.registry.nameOf.get(new.target);
    if (name) this.localName = name;
  }
  focus() {
    if (page.document.activeElement === this) return;
    page.document.activeElement = this;
    fire(this, "focus", {}, false);
  }
  blur() {
    if (page.document.activeElement === this) page.document.activeElement = null;
  }
}
class FakeTextArea extends FakeHTMLElement {
  value = "";
  selectionStart = 0;
  selectionEnd = 0;
  select() {}
  setSelectionRange(a, b) {
    this.selectionStart = a;
    this.selectionEnd = b;
  }
}
class FakeEvent {
  constructor(type, init = {}) {
    Object.assign(this, init);
    this.type = type;
  }
}
class FakeTemplate extends FakeHTMLElement {
  content = new FakeFragment();
  set innerHTML(text) {
    this.content.replaceChildren(...parse(String(text)));
  }
}
class FakeMathMLElement extends FakeElement {
  namespaceURI = MATHML;
  focus() {}
}

class FakeDocument extends FakeNode {
  activeElement = null;
  createElement(name) {
    name = String(name).toLowerCase();
    const custom = page.registry.classOf.get(name);
    if (custom) {
      const e = new custom();
      if (e.attributes_.size || e.childNodes.length || e.parentNode) throw new Error("NotSupportedError: the result must not have attributes or children");
      return e;
    }
    const e = name === "textarea" ? new FakeTextArea() : name === "template" ? new FakeTemplate() : new FakeHTMLElement();
    e.localName = name;
    return e;
  }
  createElementNS(ns, name) {
    const e = ns === MATHML ? new FakeMathMLElement() : ns === HTML ? new FakeHTMLElement() : new FakeElement();
    e.namespaceURI = ns;
    e.localName = name;
    return e;
  }
  createTextNode(t) {
    return new FakeText(t);
  }
  createDocumentFragment() {
    return new FakeFragment();
  }
  createRange() {
    return new FakeRange();
  }
  createComment() {
    return new FakeFragment();
  }
  createTreeWalker(root, what = -1) {
    const list = [];
    const walk = (n) => {
      for (const c of n.childNodes) {
        if (what & (1 << (c.nodeType - 1))) list.push(c);
        walk(c);
      }
    };
    walk(root);
    let i = -1;
    return {
      root,
      get currentNode() {
        return i < 0 ? root : list[i];
      },
      nextNode: () => (i + 1 < list.length ? list[++i] : null),
      previousNode: () => (i > 0 ? list[--i] : null),
    };
  }
  createNodeIterator(root, what) {
    return this.createTreeWalker(root, what);
  }
  importNode(n, deep) {
    return n.cloneNode(deep);
  }
  adoptNode(n) {
    n.remove();
    return n;
  }
  createEvent(type) {
    return new FakeEvent(type);
  }
  elementsFromPoint(x, y) {
    const e = elementAt(x, y);
    return e ? [e] : [];
  }
  hasFocus() {
    return true;
  }
  getSelection() {
    return null;
  }
  elementFromPoint(x, y) {
    return elementAt(x, y);
  }
  get documentElement() {
    return this.childNodes[0];
  }
  get defaultView() {
    return globalThis;
  }
  get body() {
    return this.childNodes[0];
  }
}
class FakeRange {
  #node = null;
  #start = 0;
  #end = null;
  selectNode(n) {
    if (!n.parentNode) throw new Error("InvalidNodeTypeError");
    this.#node = n;
    this.#start = 0;
    this.#end = n instanceof FakeText ? n.length : n.childNodes.length;
  }
  selectNodeContents(n) {
    this.#node = n;
    this.#start = 0;
    this.#end = n instanceof FakeText ? n.length : n.childNodes.length;
  }
  createContextualFragment(text) {
    const f = new FakeFragment();
    f.append(...parse(String(text)));
    return f;
  }
  setStartAfter(n) {
    this.setEndAfter(n);
    this.#start = this.#end;
  }
  setEndBefore(n) {
    this.#node = n;
    this.#end = this.#start = 0;
  }
  cloneRange() {
    const r = new FakeRange();
    if (this.#node) {
      r.setStart(this.#node, this.#start);
      r.setEnd(this.#node, this.#end);
    }
    return r;
  }
  get startContainer() {
    return this.#node;
  }
  get endContainer() {
    return this.#node;
  }
  get startOffset() {
    return this.#start;
  }
  get endOffset() {
    return this.#end;
  }
  get collapsed() {
    return this.#start === this.#end;
  }
  toString() {
    return this.#node instanceof FakeText ? this.#node.data.slice(this.#start, this.#end) : this.#node?.textContent ?? "";
  }
  setStartBefore(n) {
    this.selectNode(n);
    this.#end = 0;
  }
  setEndAfter(n) {
    this.#node = n;
    this.#end = n instanceof FakeText ? n.length : n.childNodes.length;
  }
  getClientRects() {
    return [this.getBoundingClientRect()];
  }
  collapse(toStart) {
    if (toStart) this.#end = this.#start;
    else this.#start = this.#end;
  }
  detach() {}
  setStart(n, i) {
    this.#node = n;
    this.#start = i;
    if (this.#end === null || this.#end < i) this.#end = i;
  }
  setEnd(n, i) {
    this.#node = n;
    this.#end = i;
  }
  getBoundingClientRect() {
    const r = rectOf(this.#node);
    if (!(this.#node instanceof FakeText) || this.#node.length === 0) return r;
    const w = r.width / this.#node.length;
    return rect(r.x + this.#start * w, r.y, (this.#end - this.#start) * w, r.height);
  }
}

// ---------------------------------------------------------------- markup
const ENTITIES = { amp: "&", lt: "<", gt: ">", quot: '"', apos: "'", nbsp: "\u00a0", alpha: "α", sum: "∑", infin: "∞", and: "∧", eacute: "é" };
function decode(s) {
  return s.replace(/&(#x[0-9a-f]+|#[0-9]+|[a-z]+);/gi, (all, e) => {
    if (e[0] === "#") return String.fromCodePoint(e[1] === "x" || e[1] === "X" ? parseInt(e.slice(2), 16) : +e.slice(1));
    return ENTITIES[e] ?? all;
  });
}
const VOID = new Set(["br", "img", "input", "hr", "meta", "link"]);
/** The part of HTML fragment parsing that formulas need. */
function parse(text) {
  const root = new FakeFragment();
  const open = [root];
  const top = () => open[open.length - 1];
  const re = /<!--[\s\S]*?-->|<\/([a-z][^\s>\/]*)[^>]*>|<([a-z][^\s>\/]*)((?:\s+[^\s=>\/]+(?:\s*=\s*(?:"[^"]*"|'[^']*'|[^\s>]*))?)*)\s*(\/?)>|[^<]+|</gi;
  let m;
  while ((m = re.exec(text))) {
    if (m[1]) {
      const name = m[1].toLowerCase();
      for (let i = open.length - 1; i > 0; i--) {
        if (open[i].localName === name) {
          open.length = i;
          break;
        }
      }
    } else if (m[2]) {
      const name = m[2].toLowerCase();
      const foreign = name === "math" || top().namespaceURI === MATHML;
      const e = foreign ? page.document.createElementNS(MATHML, name) : page.document.createElement(name);
      for (const a of m[3].matchAll(/([^\s=]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s]*)))?/g)) {
        e.attributes_.set(a[1].toLowerCase(), decode(a[2] ?? a[3] ?? a[4] ?? ""));
      }
      for (const [k, v] of e.attributes_) {
        if (e.constructor.observedAttributes?.includes(k)) guarded("attribute in markup", () => e.attributeChangedCallback?.(k, null, v));
      }
      top().appendChild(e);
      if (!(foreign && m[4]) && !(!foreign && VOID.has(name))) open.push(e);
    } else if (!m[0].startsWith("<!--")) {
      const t = top().lastChild;
      if (t instanceof FakeText) t.data += decode(m[0]);
      else top().appendChild(new FakeText(decode(m[0])));
    }
  }
  return [...root.childNodes];
}
function print(node) {
  if (node instanceof FakeText) {
    return node.data.replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;");
  }
  const attrs = [...node.attributes_].map(([k, v]) => ` ${k}="${v.replace(/&/g, "&amp;").replace(/"/g, "&quot;")}"`);
  const name = node.localName;
  return `<${name}${attrs.join("")}>${node.childNodes.map(print).join("")}</${name}>`;
}

// ---------------------------------------------------------------- layout
// Boxes have a width, an ascent and a descent; every symbol is as wide as its
// characters say. Operators and constructs have some space of their own, which
// grows with the font.
const BASE = 20;
function rect(x, y, width, height) {
  return { x, y, width, height, left: x, top: y, right: x + width, bottom: y + height };
}
function widthOf(s, font) {
  let w = 0;
  for (const c of s) w += (7 + (c.codePointAt(0) % 5)) * (font / BASE);
  return w;
}
function measure(node, font) {
  const box = { w: 0, asc: 0, desc: 0, font, at: [] };
  boxes.set(node, box);
  if (node instanceof FakeText) {
    box.w = widthOf(node.data, font);
    box.asc = 0.7 * font;
    box.desc = 0.2 * font;
    return box;
  }
  const kids = node.childNodes;
  const name = node.localName;
  const place = (k, x, y) => {
    const b = boxes.get(k);
    box.at.push([k, x, y]);
    box.w = Math.max(box.w, x + b.w);
    box.asc = Math.max(box.asc, b.asc - y);
    box.desc = Math.max(box.desc, b.desc + y);
  };
  const wide = (n) => {
    box.w += n;
  };
  const em = font / BASE;
  if (name === "mfrac" && kids.length === 2) {
    const [a, b] = kids.map((k) => measure(k, font));
    const w = Math.max(a.w, b.w) + 4 * em;
    place(kids[0], (w - a.w) / 2, -0.35 * font - 3 * em - a.desc);
    place(kids[1], (w - b.w) / 2, -0.35 * font + 3 * em + b.asc);
    box.w = w;
  } else if ((name === "msup" || name === "msub") && kids.length === 2) {
    const a = measure(kids[0], font);
    measure(kids[1], Math.max(font * 0.7, 4));
    place(kids[0], 0, 0);
    place(kids[1], a.w + em, name === "msup" ? -0.55 * font : 0.35 * font);
    wide(em);
  } else if (name === "mroot" && kids.length === 2) {
    const b = measure(kids[0], font);
    const i = measure(kids[1], Math.max(font * 0.6, 4));
    place(kids[1], em, -0.5 * font - i.desc);
    place(kids[0], i.w + 6 * em, 0);
    box.asc = Math.max(box.asc, b.asc + 3 * em);
    wide(2 * em);
  } else if (name === "mtable") {
    const grid = kids.map((r) => r.childNodes.map((c) => measure(c, font)));
    const columns = [];
    for (const r of grid) r.forEach((c, j) => (columns[j] = Math.max(columns[j] ?? 0, c.w)));
    const heights = grid.map((r) => [Math.max(0, ...r.map((c) => c.asc)), Math.max(0, ...r.map((c) => c.desc))]);
    const all = heights.reduce((s, [a, d]) => s + a + d + 6 * em, 0);
    let y = -all / 2 - 0.35 * font;
    const w = columns.reduce((s, c) => s + c + 6 * em, 0);
    kids.forEach((r, i) => {
      const row = { w, asc: heights[i][0] + 3 * em, desc: heights[i][1] + 3 * em, font, at: [] };
      boxes.set(r, row);
      let x = 3 * em;
      r.childNodes.forEach((c, j) => {
        row.at.push([c, x, 0]);
        x += columns[j] + 6 * em;
      });
      place(r, 0, y + row.asc);
      y += row.asc + row.desc;
    });
    box.w = w;
  } else {
    let x = name === "mo" ? 2 * em : 0;
    for (const k of kids) {
      measure(k, font);
      place(k, x, 0);
      x += boxes.get(k).w;
    }
    box.w = x + (name === "mo" ? 2 * em : 0);
  }
  return box;
}
let boxes = new Map();
let places = new Map();
let laidOut = 0;
function put(node, x, y) {
  const b = boxes.get(node);
  places.set(node, { rect: rect(x, y - b.asc, b.w, b.asc + b.desc), baseline: y, font: b.font });
  for (const [k, dx, dy] of b.at) put(k, x + dx, y + dy);
}
function layout() {
  if (laidOut === version) return;
  laidOut = version;
  boxes = new Map();
  places = new Map();
  let top = 8;
  const visit = (node) => {
    if (node.localName === "math") {
      const b = measure(node, BASE);
      put(node, 8, top + b.asc);
      top += Math.ceil(b.asc + b.desc) + 40;
      return;
    }
    if (node instanceof FakeElement) places.set(node, { rect: rect(8, top, 0, 0), baseline: top, font: BASE });
    if (node.shadowRoot) visit(node.shadowRoot);
    for (const c of node.childNodes) visit(c);
  };
  visit(page.document);
}
function rectOf(node) {
  if (!node.isConnected) return rect(0, 0, 0, 0);
  layout();
  const r = places.get(node)?.rect ?? rect(0, 0, 0, 0);
  return { ...r };
}

// ---------------------------------------------------------------- the page
export const page = {
  registry: { classOf: new Map(), nameOf: new Map() },
  document: null,
  timers: [],
  nextTimer: 1,
  now: 0,
  pointers: new Set([1, 2]),
  capture: new Map(),
  errors: [],
  warnings: [],
};
export function freshPage() {
  page.document = new FakeDocument();
  globalThis.document = page.document;
  const body = page.document.createElement("body");
  page.document.appendChild(body);
  page.timers = [];
  page.nextTimer = 1;
  page.now = 0;
  page.capture = new Map();
  page.errors = [];
  page.warnings = [];
}
/** Runs the listeners of an event: on the way down, at its target, and upwards. Errors are reported, as a browser does. */
export function fire(target, type, init = {}, bubbles = true) {
  const path = [];
  for (let n = target; n; n = n.parentNode ?? n.host) path.push(n);
  const ev = {
    bubbles,
    cancelable: true,
    composed: true,
    isTrusted: true,
    timeStamp: page.now,
    view: globalThis,
    getModifierState: () => false,
    ...init,
    type,
    target,
    defaultPrevented: false,
    preventDefault() {
      this.defaultPrevented = true;
    },
    stopPropagation() {
      this.stopped = true;
    },
    stopImmediatePropagation() {
      this.stopped = true;
      this.ended = true;
    },
    composedPath: () => [...path],
  };
  const at = (n, capture) => {
    for (const l of n.listenersOf(type, capture)) {
      if (ev.ended) return;
      ev.currentTarget = n;
      if (l.once) n.removeEventListener(type, l.fn, l.capture);
      guarded(type, () => (typeof l.fn === "function" ? l.fn.call(n, ev) : l.fn.handleEvent(ev)));
    }
  };
  for (const n of [...path].reverse()) if (!ev.stopped) at(n, true);
  for (const n of path) {
    if (ev.stopped || (n !== target && !bubbles)) break;
    at(n, false);
  }
  return ev;
}
export function guarded(what, f) {
  try {
    return f();
  } catch (e) {
    const m = Array.isArray(e) ? e[0] : e;
    page.errors.push({ what, message: String(m?.message ?? m), stack: String(m?.stack ?? "") });
  }
}
/** The timer that is due first; the clock moves on to it. */
export function runTimer() {
  const t = page.timers.shift();
  if (t) {
    page.now = Math.max(page.now, t.due);
    guarded("timer", t.fn);
  }
  return !!t;
}
function addTimer(fn, delay = 0, ...args) {
  const id = page.nextTimer++;
  const due = page.now + Math.max(0, +delay || 0);
  let at = page.timers.length;
  while (at > 0 && page.timers[at - 1].due > due) at--;
  page.timers.splice(at, 0, { id, due, fn: () => fn(...args) });
  return id;
}
export function placeOf(node) {
  layout();
  return places.get(node);
}
export function elementAt(x, y) {
  layout();
  let best = null;
  const walk = (n) => {
    if (n instanceof FakeElement) {
      const r = places.get(n)?.rect;
      if (r && x >= r.left && x <= r.right && y >= r.top && y <= r.bottom) best = n;
    }
    if (n.shadowRoot) walk(n.shadowRoot);
    for (const c of n.childNodes) walk(c);
  };
  walk(page.document);
  return best;
}
export const isText = (n) => n instanceof FakeText;
export const isElement = (n) => n instanceof FakeElement;
export { parse, print };

const drainQueue = globalThis.setImmediate;
/** Lets everything that was promised happen. */
export const drain = () => new Promise((done) => drainQueue(done));
process.on("unhandledRejection", (e) => guarded("promise", () => {
  throw e;
}));
globalThis.window = globalThis;
globalThis.Node = FakeNode;
globalThis.Text = FakeText;
globalThis.Element = FakeElement;
globalThis.HTMLElement = FakeHTMLElement;
globalThis.HTMLTextAreaElement = FakeTextArea;
globalThis.MathMLElement = FakeMathMLElement;
globalThis.DocumentFragment = FakeFragment;
globalThis.customElements = {
  define(name, cls) {
    page.registry.classOf.set(name, cls);
    page.registry.nameOf.set(cls, name);
  },
  get: (name) => page.registry.classOf.get(name),
};
globalThis.getComputedStyle = (e) => {
  const value = (p) => {
    layout();
    return p === "font-size" ? `${places.get(e)?.font ?? BASE}px` : "";
  };
  return {
    getPropertyValue: value,
    get fontSize() {
      return value("font-size");
    },
  };
};
globalThis.HTMLElement.prototype.computedStyleMap = globalThis.MathMLElement.prototype.computedStyleMap = function () {
  return { get: (p) => (p === "font-size" ? { value: parseFloat(getComputedStyle(this).fontSize), unit: "px" } : undefined) };
};
const never = (name) => (globalThis[name] = class {});
for (const n of ["SVGElement", "Comment", "CDATASection", "HTMLInputElement"]) never(n);
for (const n of ["HTMLSpanElement", "HTMLDivElement", "HTMLStyleElement"]) globalThis[n] = FakeHTMLElement;
globalThis.HTMLTemplateElement = FakeTemplate;
globalThis.ShadowRoot = FakeShadowRoot;
globalThis.Document = globalThis.HTMLDocument = FakeDocument;
globalThis.EventTarget = FakeEventTarget;
globalThis.Range = FakeRange;
globalThis.NodeFilter = { SHOW_ALL: -1, SHOW_ELEMENT: 1, SHOW_TEXT: 4, FILTER_ACCEPT: 1, FILTER_REJECT: 2, FILTER_SKIP: 3 };
for (const c of [FakeNode, FakeNode.prototype]) {
  Object.assign(c, { ELEMENT_NODE: 1, TEXT_NODE: 3, COMMENT_NODE: 8, DOCUMENT_NODE: 9, DOCUMENT_FRAGMENT_NODE: 11 });
  Object.assign(c, { DOCUMENT_POSITION_PRECEDING: 2, DOCUMENT_POSITION_FOLLOWING: 4, DOCUMENT_POSITION_CONTAINS: 8, DOCUMENT_POSITION_CONTAINED_BY: 16 });
}
globalThis.XMLSerializer = class {
  serializeToString(n) {
    return n.outerHTML;
  }
};
globalThis.matchMedia = () => ({ matches: false, addEventListener() {}, removeEventListener() {} });
globalThis.setTimeout = addTimer;
globalThis.clearTimeout = (id) => {
  page.timers = page.timers.filter((t) => t.id !== id);
};
globalThis.requestAnimationFrame = (fn) => addTimer(() => fn(page.now), 16);
globalThis.cancelAnimationFrame = globalThis.clearTimeout;
globalThis.requestIdleCallback = (fn) => addTimer(() => fn({ didTimeout: false, timeRemaining: () => 10 }), 1);
globalThis.cancelIdleCallback = globalThis.clearTimeout;
globalThis.setImmediate = undefined;
globalThis.Event = globalThis.CustomEvent = FakeEvent;
for (const k of ["KeyboardEvent", "InputEvent", "PointerEvent", "MouseEvent", "ClipboardEvent", "FocusEvent", "UIEvent"]) {
  globalThis[k] = class extends FakeEvent {};
}
class Inert {
  observe() {}
  unobserve() {}
  disconnect() {}
  takeRecords() {
    return [];
  }
}
globalThis.ResizeObserver = globalThis.MutationObserver = globalThis.IntersectionObserver = Inert;
globalThis.DOMRectReadOnly = globalThis.DOMRect = class {
  static fromRect({ x, y, width, height }) {
    return rect(x, y, width, height);
  }
  constructor(x = 0, y = 0, width = 0, height = 0) {
    Object.assign(this, rect(x, y, width, height));
  }
};
globalThis.DOMParser = class {
  parseFromString(text) {
    const d = new FakeFragment();
    d.append(...parse(String(text)));
    d.body = d;
    d.documentElement = d.firstElementChild;
    return d;
  }
};
globalThis.reportError = (e) => guarded("reported", () => {
  throw e;
});
Date.now = () => 1700000000000 + page.now;
performance.now = () => page.now;
Math.random = () => 0.5;
globalThis.console = {
  log() {},
  info() {},
  debug() {},
  warn: (...a) => page.warnings.push(a.map(String).join(" ")),
  error: (...a) => page.warnings.push(a.map(String).join(" ")),
  assert() {},
};
freshPage();
