// A small document: just enough of the DOM to run the client, with everything observable recorded.
let serial = 0;

export class Event {
  constructor(type, init = {}) {
    this.type = type;
    this.bubbles = init.bubbles !== false;
    this.target = null;
    this.currentTarget = null;
    this.defaultPrevented = false;
    Object.defineProperty(this, "_stop", { value: false, writable: true, enumerable: false });
    Object.assign(this, init.fields || {});
  }
  preventDefault() { this.defaultPrevented = true; }
  stopPropagation() { this._stop = true; }
  stopImmediatePropagation() { this._stop = true; }
}

export class EventTarget {
  constructor() { Object.defineProperty(this, "_l", { value: {}, enumerable: false }); }
  addEventListener(type, fn) { (this._l[type] ||= []).includes(fn) || this._l[type].push(fn); }
  removeEventListener(type, fn) { this._l[type] = (this._l[type] || []).filter((f) => f !== fn); }
  dispatchEvent(e) {
    e.target ||= this;
    for (let n = this; n; n = n.parentNode) {
      e.currentTarget = n;
      for (const f of [...(n._l[e.type] || [])]) typeof f === "function" ? f.call(n, e) : f.handleEvent(e);
      if (e._stop || !e.bubbles) break;
    }
    return !e.defaultPrevented;
  }
}

export class Node extends EventTarget {
  constructor() {
    super();
    for (const [k, v] of [["childNodes", []], ["parentNode", null], ["id_", ++serial]])
      Object.defineProperty(this, k, { value: v, writable: true, enumerable: false });
  }
  get firstChild() { return this.childNodes[0] || null; }
  get lastChild() { return this.childNodes[this.childNodes.length - 1] || null; }
  get nextSibling() { const s = this.parentNode?.childNodes; return s ? s[s.indexOf(this) + 1] || null : null; }
  get isConnected() { let n = this; while (n.parentNode) n = n.parentNode; return n === globalThis.document?.body; }
  insertBefore(c, ref) {
    const moved = c.isConnected;
    if (c.parentNode) c.parentNode.childNodes.splice(c.parentNode.childNodes.indexOf(c), 1);
    const i = ref ? this.childNodes.indexOf(ref) : this.childNodes.length;
    if (i < 0) throw new Error("NotFoundError: reference is no child");
    this.childNodes.splice(i, 0, c);
    c.parentNode = this;
    optionsChanged(this);
    if (moved) disconnected(c);
    if (c.isConnected) connected(c);
    return c;
  }
  appendChild(c) { return this.insertBefore(c, null); }
  append(c) { this.appendChild(c); }
  removeChild(c) {
    const i = this.childNodes.indexOf(c);
    if (i < 0) throw new Error("NotFoundError: the node to be removed is no child");
    const was = c.isConnected;
    this.childNodes.splice(i, 1);
    c.parentNode = null;
    optionsChanged(this);
    if (was) disconnected(c);
    return c;
  }
  remove() { this.parentNode && this.parentNode.removeChild(this); }
  get textContent() { return this.childNodes.map((c) => c.textContent).join(""); }
  set textContent(t) { for (const c of [...this.childNodes]) this.removeChild(c); if (t) this.appendChild(new Text(t)); }
}

// the reactions of custom elements run once the operation is over, those of inner ones after those of outer ones
function tree(n, out = []) { out.push(n); for (const c of n.childNodes) tree(c, out); return out; }
function connected(n) { for (const c of tree(n)) c.connectedCallback?.(); }
function disconnected(n) { for (const c of tree(n)) c.disconnectedCallback?.(); }

export class Text extends Node {
  constructor(t) { super(); this.data = String(t); }
  get nodeType() { return 3; }
  get textContent() { return this.data; }
  set textContent(t) { this.data = t; }
}

const registry = new Map();
export const customElements = { define: (n, c) => registry.set(n, c), get: (n) => registry.get(n) };

export class HTMLElement extends Node {
  constructor(tag) {
    super();
    Object.defineProperty(this, "localName", { value: tag, writable: true, enumerable: false });
    Object.defineProperty(this, "attrs", { value: {}, enumerable: false });
    Object.defineProperty(this, "style_", { value: {}, enumerable: false });
    Object.defineProperty(this, "props", { value: {}, enumerable: false });
    Object.defineProperty(this, "value_", { value: undefined, writable: true, configurable: true, enumerable: false });
    Object.defineProperty(this, "writes", { value: [], enumerable: false });
  }
  get nodeType() { return 1; }
  get tagName() { return this.localName.toUpperCase(); }
  get style() { return this.style_; }
  setAttribute(k, v) { this.attrs[k] = String(v); }
  getAttribute(k) { return k in this.attrs ? this.attrs[k] : null; }
  removeAttribute(k) { delete this.attrs[k]; }
  get type() { return this.attrs.type || this.props.type || ""; }
}

// form controls hold a value of their own; every write by a program is recorded
class HTMLValueElement extends HTMLElement {
  constructor(t) { super(t); this.value_ = ""; }
  get value() { return this.value_; }
  set value(v) {
    v = v === null ? "" : String(v);
    this.writes.push(v);
    globalThis.onValueWrite?.(this, v);
    this.value_ = v;
  }
}
export class HTMLInputElement extends HTMLValueElement {}
export class HTMLTextAreaElement extends HTMLValueElement {}
// a drop-down list: its value is that of the chosen option, which is the first one if there is no other
export class HTMLSelectElement extends HTMLValueElement {
  constructor(t) {
    super(t);
    let plain = "", chosen = null;
    const options = (n = this) => n.childNodes.flatMap((c) => (c.localName === "option" ? [c] : c.localName === "optgroup" ? options(c) : []));
    const valueOf = (o) => o.getAttribute("value") ?? o.textContent;
    Object.defineProperty(this, "value_", {
      enumerable: false,
      get: () => (options().length || chosen ? (chosen ? valueOf(chosen) : "") : plain),
      set: (v) => { plain = v; chosen = options().find((o) => valueOf(o) === v) || null; },
    });
    Object.defineProperty(this, "optionsChanged_", {
      enumerable: false,
      value: () => { const all = options(); if (!all.includes(chosen)) chosen = all.find((o) => o.getAttribute("disabled") === null) || null; if (!all.length) plain = ""; },
    });
  }
}
function optionsChanged(n) { for (; n; n = n.parentNode) if (n.optionsChanged_) return n.optionsChanged_(); }
export class HTMLFormElement extends HTMLElement {}

const CLASSES = { input: HTMLInputElement, textarea: HTMLTextAreaElement, select: HTMLSelectElement, form: HTMLFormElement };

export class Document extends Node {
  constructor() {
    super();
    this.body = new HTMLElement("body");
    this.title = "";
  }
  createElement(tag) {
    const C = registry.get(tag);
    if (C) { const n = new C(); n.localName = tag; return n; }
    return new (CLASSES[tag] || HTMLElement)(tag);
  }
  createElementNS(_, tag) { return this.createElement(tag); }
  createTextNode(t) { return new Text(t); }
}
export class CSSStyleSheet {}
export class CSSStyleDeclaration {}
export class Window {}

/** A plain description of what is displayed. */
export function describe(n) {
  if (n.nodeType === 3) return n.data;
  const d = { tag: n.localName };
  if (Object.keys(n.attrs).length) d.attrs = { ...n.attrs };
  if (Object.keys(n.props).length) d.props = { ...n.props };
  if (Object.keys(n.style_).length) d.style = { ...n.style_ };
  const on = Object.keys(n._l).filter((k) => n._l[k].length).sort();
  if (on.length) d.on = on;
  if (n.value_ !== undefined) d.value = n.value_;
  if (n.childNodes.length) d.children = n.childNodes.map(describe);
  return d;
}
