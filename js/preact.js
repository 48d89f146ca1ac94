// A small implementation of the part of Preact the client uses: keyed diffing, hooks, context, refs.
// Rendering after a state change happens in a microtask; effects run in a task of their own (`flushEffects`),
// or before the next rendering of their component.  With `preact/compat` loaded, as in the published bundle,
// onChange of text inputs listens to "input".
let current = null, hookIndex = 0;
let queue = [], scheduled = false;
let effectQueue = [];
export const stats = { renders: 0 };

export const options = {};
export function Fragment(props) { return props.children; }
export class Component {
  constructor(props, context) { this.props = props; this.context = context; this.state = {}; }
  setState(s) { Object.assign(this.state, typeof s === "function" ? s(this.state, this.props) : s); enqueue(this._inst); }
  forceUpdate() { enqueue(this._inst); }
}
export function createElement(type, props, ...children) {
  const p = {};
  let key, ref;
  for (const k in props || {}) {
    if (k === "key") key = props[k];
    else if (k === "ref") ref = props[k];
    else p[k] = props[k];
  }
  if (children.length) p.children = children.length === 1 ? children[0] : children;
  return { type, props: p, key, ref, vnode_: true };
}
export const h = createElement;
export function jsx(type, props, key) {
  const { ref, ...rest } = props;
  if (typeof type === "function") return { type, props: { ...rest }, key, ref, vnode_: true };
  return { type, props: rest, key, ref, vnode_: true };
}
export const jsxs = jsx, jsxDEV = jsx;
export function isValidElement(v) { return !!v && v.vnode_ === true; }
export function cloneElement(v, props, ...c) { return createElement(v.type, { ...v.props, key: v.key, ref: v.ref, ...props }, ...(c.length ? c : [].concat(v.props.children ?? []))); }
export function createRef() { return { current: null }; }
export function createContext(def) {
  const ctx = { def };
  ctx.Provider = function Provider(props) { return props.children; };
  ctx.Provider.ctx = ctx;
  ctx.Consumer = function Consumer(props) { return props.children(useContext(ctx)); };
  return ctx;
}
export function memo(C, eq) {
  function Memoed(props) { return createElement(C, props); }
  Memoed.equal = eq || ((a, b) => { const k = new Set([...Object.keys(a), ...Object.keys(b)]); for (const x of k) if (a[x] !== b[x]) return false; return true; });
  return Memoed;
}
export function forwardRef(fn) { return (props) => fn(props, props.ref); }

// ---- hooks
function hook(init) {
  const i = hookIndex++;
  if (current.hooks.length <= i) current.hooks.push(init());
  return current.hooks[i];
}
const is = (a, b) => !a || a.length !== b?.length || b.some((x, i) => x !== a[i]);
export function useReducer(reducer, initial, init) {
  const inst = current;
  const s = hook(() => {
    const st = { value: init ? init(initial) : typeof initial === "function" && reducer === apply ? initial() : initial };
    st.set = (action) => {
      const next = st.reducer(st.value, action);
      if (next !== st.value) { st.value = next; enqueue(inst); }
    };
    return st;
  });
  s.reducer = reducer;
  return [s.value, s.set];
}
const apply = (old, a) => (typeof a === "function" ? a(old) : a);
export function useState(initial) { return useReducer(apply, initial); }
export function useRef(v) { return hook(() => ({ current: v })); }
export function useMemo(fn, deps) {
  const s = hook(() => ({}));
  if (!("value" in s) || is(s.deps, deps)) { s.value = fn(); s.deps = deps; }
  return s.value;
}
export function useCallback(fn, deps) { return useMemo(() => fn, deps); }
export function useEffect(fn, deps) {
  const s = hook(() => ({ effect: true }));
  if (is(s.deps, deps)) { s.next = fn; s.deps = deps; current.pending.push(s); }
}
export function useLayoutEffect(fn, deps) {
  const s = hook(() => ({ effect: true }));
  if (is(s.deps, deps)) { s.next = fn; s.deps = deps; current.layout.push(s); }
}
export function useContext(ctx) {
  for (let n = current.parent; n; n = n.parent)
    if (n.type && n.type.ctx === ctx) { n.subs.add(current); return n.vnode.props.value; }
  return ctx.def;
}
let ids = 0;
export function useId() { return hook(() => "P" + ids++); }
export function useImperativeHandle(ref, fn, deps) { useLayoutEffect(() => { const v = fn(); typeof ref === "function" ? ref(v) : ref && (ref.current = v); }, deps); }
export function useErrorBoundary() { return [undefined, () => {}]; }
export function useDebugValue() {}

function runEffects(list) {
  const l = list.splice(0);
  for (const s of l) if (typeof s.cleanup === "function") { const c = s.cleanup; s.cleanup = null; c(); }
  for (const s of l) { const fn = s.next; s.next = null; if (fn) s.cleanup = fn(); }
}
export function pendingEffects() { return effectQueue.some((i) => i.pending.length && !i.dead); }
export function flushEffects() { while (effectQueue.length) { const i = effectQueue.shift(); if (!i.dead) runEffects(i.pending); } }

function enqueue(inst) {
  if (inst.dead || inst.dirty) return;
  inst.dirty = true;
  queue.push(inst);
  if (!scheduled) { scheduled = true; Promise.resolve().then(process_); }
}
function process_() {
  scheduled = false;
  while (queue.length) {
    queue.sort((a, b) => a.depth - b.depth);
    const i = queue.shift();
    if (i.dirty && !i.dead) { const l = []; rerender(i, l); commit(l); }
  }
}

// ---- instances: {kind: "text"|"host"|"comp", vnode, node, kids, parent}
function normalize(c, out = []) {
  if (Array.isArray(c)) c.forEach((x) => normalizeInner(x, out));
  else normalizeInner(c, out);
  return out;
}
function normalizeInner(x, out) {
  if (Array.isArray(x)) out.push({ type: Fragment, props: { children: x }, key: undefined, vnode_: true });
  else if (x === null || x === undefined || typeof x === "boolean") out.push(null);
  else if (typeof x === "object" || typeof x === "function") out.push(x);
  else out.push({ type: null, text: String(x), key: undefined });
}

function diffKids(parent, vnodes, svgParent, layout) {
  const old = parent.kids.slice();
  const used = new Set();
  const kids = [];
  const find = (v, i) => {
    const ok = (o) => o && !used.has(o) && o.type === v.type && (o.vnode.key ?? undefined) === (v.key ?? undefined);
    if (ok(old[i])) return old[i];
    for (let d = 1; d <= old.length; d++) { if (ok(old[i - d])) return old[i - d]; if (ok(old[i + d])) return old[i + d]; }
    return null;
  };
  const plan = vnodes.map((v, i) => { if (!v) return null; const o = find(v, i); if (o) used.add(o); return o; });
  for (let i = 0; i < vnodes.length; i++) {
    const v = vnodes[i];
    if (!v) { kids.push(null); continue; }
    let inst = plan[i];
    if (!inst) inst = create(v, parent);
    update(inst, v, layout);
    kids.push(inst);
  }
  for (const o of old) if (o && !used.has(o)) unmount(o, true);
  parent.kids = kids;
}
function create(v, parent) {
  const inst = { vnode: v, type: v.type, parent, depth: parent.depth + 1, kids: [], dead: false, fresh: true };
  if (v.type === null) inst.node = document.createTextNode(v.text);
  else if (typeof v.type === "string") { inst.node = document.createElement(v.type); inst.listeners = {}; }
  else { inst.hooks = []; inst.pending = []; inst.layout = []; inst.subs = new Set(); }
  return inst;
}
function update(inst, v, layout) {
  const old = inst.vnode, fresh = inst.fresh;
  if (!fresh && old === v && !inst.dirty) return; // the same element again: nothing to do
  inst.vnode = v;
  inst.fresh = false;
  if (v.type === null) { if (inst.node.data !== v.text) inst.node.data = v.text; return; }
  if (typeof v.type === "string") {
    setProps(inst, fresh ? {} : old.props, v.props);
    if (!v.props.dangerouslySetInnerHTML) diffKids(inst, normalize(v.props.children ?? null), false, layout);
    place(inst);
    if (fresh || old.ref !== v.ref) { if (!fresh) setRef(old.ref, null); if (v.ref) layout.push(() => setRef(v.ref, inst.node)); }
    return;
  }
  if (!fresh && v.type.equal && v.type.equal(old.props, v.props) && !inst.dirty) return;
  if (v.type.ctx && !fresh && old.props.value !== v.props.value) for (const s of inst.subs) if (!s.dead && !s.dirty) { s.dirty = true; queue.push(s); if (!scheduled) { scheduled = true; Promise.resolve().then(process_); } }
  rerender(inst, layout);
}
function rerender(inst, layout) {
  inst.dirty = false;
  stats.renders++;
  if (stats.renders > 20000) throw new Error("endless rendering");
  runEffects(inst.pending);
  const saved = [current, hookIndex];
  current = inst;
  hookIndex = 0;
  let out;
  try {
    if (inst.type.prototype instanceof Component) {
      inst.obj ||= Object.assign(new inst.type(inst.vnode.props), { _inst: inst });
      inst.obj.props = inst.vnode.props;
      out = inst.obj.render(inst.obj.props, inst.obj.state);
    } else out = inst.type(inst.vnode.props);
  } finally { [current, hookIndex] = saved; }
  diffKids(inst, normalize(out ?? null), false, layout);
  for (let p = inst.parent; p; p = p.parent) if (p.node) { place(p); break; }
  if (inst.layout.length) layout.push(() => runEffects(inst.layout));
  if (inst.pending.length) effectQueue.push(inst);
}
function commit(list) { for (const f of list) f(); }
function hosts(inst, out) {
  for (const k of inst.kids) if (k) { if (k.node) out.push(k.node); else hosts(k, out); }
  return out;
}
function place(inst) {
  const want = hosts(inst, []);
  const mine = new Set(want);
  let at = inst.node.childNodes.find((n) => n.preact_) || null;
  for (const n of want) {
    if (at !== n) inst.node.insertBefore(n, at);
    n.preact_ || Object.defineProperty(n, "preact_", { value: true });
    let i = inst.node.childNodes.indexOf(n) + 1;
    at = inst.node.childNodes[i] || null;
  }
}
function unmount(inst, removeNode) {
  inst.dead = true;
  if (inst.hooks) for (const s of inst.hooks) if (s.effect && typeof s.cleanup === "function") { const c = s.cleanup; s.cleanup = null; c(); }
  if (typeof inst.type === "string" && inst.vnode.ref) setRef(inst.vnode.ref, null);
  for (const k of inst.kids) if (k) unmount(k, removeNode && !inst.node);
  if (inst.node && removeNode) inst.node.remove();
}
function setRef(ref, v) { if (typeof ref === "function") ref(v); else if (ref) ref.current = v; }

const textInput = (t, p) => t === "textarea" || (t === "input" && !/^(fil|che|rad)/i.test(p.type || ""));
function eventName(type, name, props) {
  const base = name.toLowerCase().replace(/capture$/, "").slice(2);
  if (base === "change" && textInput(type, props)) return "input"; // preact/compat
  if (base === "doubleclick") return "dblclick";
  return base;
}
function setProps(inst, old, now) {
  const node = inst.node;
  const names = new Set([...Object.keys(old), ...Object.keys(now)]);
  for (const k of names) {
    if (k === "children" || k === "key" || k === "ref") continue;
    const v = now[k];
    if (v === old[k] && k !== "value" && k !== "checked") continue;
    if (k[0] === "o" && k[1] === "n") {
      const ev = eventName(inst.type, k, now);
      const slot = k;
      if (inst.listeners[slot]) { node.removeEventListener(inst.listeners[slot].ev, inst.listeners[slot].fn); delete inst.listeners[slot]; }
      if (typeof v === "function") { inst.listeners[slot] = { ev, fn: v }; node.addEventListener(ev, v); }
    } else if (k === "style") {
      for (const s of Object.keys(node.style_)) delete node.style_[s];
      if (v && typeof v === "object") Object.assign(node.style_, v);
      else if (v != null) node.attrs.style = String(v);
      else delete node.attrs.style;
    } else if (k === "dangerouslySetInnerHTML") {
      node.props.innerHTML = v?.__html;
    } else if (k === "value" && node.value_ !== undefined) {
      if (k in now && v != null) { if (node.value !== v) node.value = v; } else if (k in old) node.value = "";
    } else if (k === "className" || k === "class") {
      if (v == null || v === false) delete node.attrs.class; else node.attrs.class = String(v);
    } else if (k === "htmlFor") {
      if (v == null) delete node.attrs.for; else node.attrs.for = String(v);
    } else if (v == null || (v === false && k[4] !== "-")) {
      delete node.attrs[k];
    } else if (typeof v !== "function") {
      node.attrs[k] = typeof v === "object" ? JSON.stringify(v) : v === true ? "" : String(v);
    }
  }
}

// ---- roots
export function render(vnode, container) {
  let root = container.preactRoot_;
  if (!root) {
    root = { type: "#root", vnode: null, node: container, kids: [], parent: null, depth: 0, dead: false };
    Object.defineProperty(container, "preactRoot_", { value: root, writable: true, configurable: true });
    Object.defineProperty(container, "roots_", { value: true, configurable: true });
  }
  const l = [];
  diffKids(root, normalize(vnode), false, l);
  place(root);
  commit(l);
}
export function hydrate(v, c) { render(v, c); }
export function createRoot(c) { return { render: (v) => render(v, c), unmount: () => render(null, c) }; }
export function unmountComponentAtNode(c) { render(null, c); }
export const startTransition = (f) => f(), flushSync = (f) => f();
export function reset() { queue = []; scheduled = false; effectQueue = []; stats.renders = 0; ids = 0; }
export default { createElement, Fragment, render, useState, useEffect, useRef };
