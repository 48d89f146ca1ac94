// Object graphs, described by data, for event-to-object: built as real objects, and converted by an independent
// reference that works on the description.
//
// A graph is a list of nodes {k: kind, p: [[name, slot, how]]}; node 0 is the event.  `how` tells how the property
// is defined: "" an enumerable data property, "h" a property that is not enumerable, "g" an enumerable accessor of
// the prototype (as in a browser), "t" an enumerable accessor that throws, "ht" the same but not enumerable.
// A slot is a primitive of PRIMS (its index), or ["r", n] for node n.
import * as dom from "./dom.js";

const sheet = new dom.CSSStyleSheet(), docu = new dom.Document();
export const PRIMS = [
  "s", "", 0, -1.5, NaN, Infinity, true, false, null, undefined, 12345678901234567890n, Symbol("y"), () => 1, sheet, docu, "ü\u2028\ud800",
];
const DROP = (v) => v === null || v === undefined || typeof v === "function" || typeof v === "symbol" || v === sheet || v === docu;
const plain = (v) => (typeof v === "bigint" ? String(v) : v);

class List { // an array-like class
  constructor(items) { items.forEach((_, i) => 0); Object.defineProperty(this, "length", { value: items.length }); }
  *[Symbol.iterator]() { for (let i = 0; i < this.length; i++) yield this[i]; }
}
const NODE_DROP = new Set(("parentNode parentElement ownerDocument getRootNode childNodes children firstChild lastChild previousSibling nextSibling " +
  "previousElementSibling nextElementSibling innerHTML outerHTML offsetParent offsetWidth offsetHeight offsetLeft offsetTop clientTop clientLeft " +
  "clientWidth clientHeight scrollWidth scrollHeight scrollTop scrollLeft").split(" "));
const EXTRA = ["value", "checked", "files", "type", "name"];
const ARRAYS = { array: 1, list: 1 };

export function build(spec) {
  const objs = spec.map((n) => {
    switch (n.k) {
      case "array": return [];
      case "list": return new List(n.p);
      case "node": return Object.create(dom.Node.prototype);
      case "event": return Object.create(dom.Event.prototype);
      case "form": return Object.create(dom.HTMLFormElement.prototype);
      case "blob": return Object.create(Blob.prototype);
      case "bare": return Object.create(null);
      default: return {};
    }
  });
  const value = (s) => (Array.isArray(s) ? objs[s[1]] : PRIMS[s]);
  spec.forEach((n, i) => {
    let o = objs[i];
    for (const [name, slot, how = ""] of n.p) {
      const v = value(slot);
      if (how === "" && name !== "__proto__") { n.k === "array" ? (o[name] = v) : Object.defineProperty(o, name, { value: v, enumerable: true, configurable: true, writable: true }); continue; }
      const get = how.endsWith("t") ? () => { throw new Error("hostile"); } : () => v;
      let at = o;
      if (how === "g") { // on a prototype of its own
        at = Object.create(Object.getPrototypeOf(o));
        Object.setPrototypeOf(o, at);
      }
      Object.defineProperty(at, name, { get, enumerable: !how.startsWith("h"), configurable: true });
    }
  });
  return objs;
}

const badName = (k) => k.startsWith("__") || /^[A-Z_]+$/.test(k) || k === "view" || k === "length";

export function expected(spec, depth, selection) {
  const STOP = {};
  const val = (s) => (Array.isArray(s) ? s : PRIMS[s]);
  // the node `i` with `m` levels left, the nodes on the way to it, and whether it belongs to a list of files
  function conv(i, m, way, inFiles) {
    const left = m - 1;
    if (left <= 0 || way.has(i)) return STOP;
    const w = new Set(way).add(i);
    return inner(i, left, w, inFiles);
  }
  function one(slot, left, w, inFiles) { // STOP: not to be included
    const v = val(slot);
    if (!Array.isArray(v)) return DROP(v) ? STOP : plain(v);
    return conv(v[1], left, w, inFiles);
  }
  function inner(i, left, w, inFiles) {
    const n = spec[i];
    if (ARRAYS[n.k]) {
      const out = [];
      for (const [, slot, how = ""] of n.p) {
        if (how.endsWith("t")) continue;
        const r = one(slot, left, w, inFiles);
        if (r !== STOP) out.push(r);
      }
      return out;
    }
    const out = {};
    const dropped = (k) => badName(k) || (k === "size" && n.k !== "blob") || ((n.k === "node" || n.k === "form") && NODE_DROP.has(k));
    for (const [k, slot, how = ""] of n.p) {
      if (how.startsWith("h") || how.endsWith("t") || dropped(k)) continue;
      const r = one(slot, left, w, inFiles);
      if (r !== STOP) out[k] = r;
    }
    if (i === 0) return out;
    for (const k of ["dataset", ...EXTRA]) {
      const d = n.p.find((p) => p[0] === k);
      if (!d || k in out || (d[2] || "").endsWith("t")) continue;
      const more = k === "files" && !inFiles;
      const r = one(d[1], more ? Math.max(left, 3) : left, w, inFiles || more);
      if (r !== STOP) out[k] = r;
    }
    if (n.k === "form") {
      const els = n.p.find((p) => p[0] === "elements");
      if (els && Array.isArray(els[1]) && !(els[2] || "").endsWith("t"))
        for (const [, slot] of spec[els[1][1]].p) {
          const nm = Array.isArray(slot) && spec[slot[1]].p.find((p) => p[0] === "name");
          const name = nm && !(nm[2] || "").endsWith("t") && PRIMS[nm[1]];
          if (typeof name !== "string" || !name || name.startsWith("__") || name in out) continue;
          const r = conv(slot[1], left, w, inFiles);
          if (r !== STOP) out[name] = r;
        }
    }
    return out;
  }
  const out = inner(0, depth, new Set([0]), false);
  if (spec[0].k === "event") {
    out.selection = null;
    if (selection) {
      const nd = (x) => { if (x === null) return null; const r = conv(x, depth, new Set([0]), false); return r === STOP ? null : r; };
      out.selection = { type: "Range", anchorNode: nd(selection[0]), anchorOffset: 1, focusNode: nd(selection[1]), focusOffset: 2, isCollapsed: false, rangeCount: 1, selectedText: "text" };
    }
  }
  return out;
}

function differs(a, b, at = "event") {
  if (a === null || typeof a !== "object" || b === null || typeof b !== "object") return Object.is(a, b) ? null : `${at} is ${show(a)} instead of ${show(b)}`;
  if (Array.isArray(a) !== Array.isArray(b)) return `${at} is ${show(a)} instead of ${show(b)}`;
  if (Object.getPrototypeOf(a) !== (Array.isArray(a) ? Array.prototype : Object.prototype)) return `${at} is no plain object`;
  const ka = Object.keys(a), kb = Object.keys(b);
  for (const k of kb) if (!Object.prototype.hasOwnProperty.call(a, k)) return `${at} lacks ${JSON.stringify(k)}: ${show(b[k])}`;
  for (const k of ka) if (!Object.prototype.hasOwnProperty.call(b, k)) return `${at} includes ${JSON.stringify(k)}: ${show(a[k])}`;
  for (const k of ka) { const d = differs(a[k], b[k], `${at}.${k}`); if (d) return d; }
  return null;
}
function show(v) { try { const s = JSON.stringify(v); return s === undefined ? String(v) : s.slice(0, 200); } catch (e) { return `[${e.message}]`; } }

export function judge(convert, spec, depth, selection = null) {
  const objs = build(spec);
  globalThis.window.getSelection = selection === null ? () => null : () => ({
    type: "Range", anchorNode: selection[0] === null ? null : objs[selection[0]], anchorOffset: 1,
    focusNode: selection[1] === null ? null : objs[selection[1]], focusOffset: 2, isCollapsed: false, rangeCount: 1, toString: () => "text",
  });
  let got;
  try {
    got = depth === 0 ? convert(objs[0]) : convert(objs[0], depth);
    const d = differs(got, expected(spec, depth || 10, selection));
    if (d) return d;
    JSON.stringify(got);
  } catch (e) { return `${e.message}`; }
  finally { globalThis.window.getSelection = () => null; }
  return null;
}

// ---- families of graphs; each yields [spec, depth, selection?]
const r = (n) => ["r", n];
function* product(...lists) {
  if (!lists.length) { yield []; return; }
  const [first, ...rest] = lists;
  for (const x of first) for (const y of product(...rest)) yield [x, ...y];
}

export const families = {
  // every graph of three nodes with two properties each
  *shapes(big) {
    const slots = [0, 8, r(0), r(1), r(2), "t"];
    const kinds = big ? ["plain", "array", "list", "node", "bare"] : ["plain", "array", "list"];
    const mk = (kind, a, b) => ({ k: kind, p: (ARRAYS[kind] ? ["0", "1"] : ["a", "b"]).map((n, i) => { const s = [a, b][i]; return s === "t" ? [n, 0, ARRAYS[kind] ? "" : "t"] : [n, s]; }) });
    for (const [k1, k2] of product(kinds, kinds))
      for (const s of product(slots, slots, slots, slots, slots, slots))
        for (const d of big ? [1, 2, 3, 4, 5, 0] : [1, 3, 0])
          yield [[mk("plain", s[0], s[1]), mk(k1, s[2], s[3]), mk(k2, s[4], s[5])], d];
  },
  // every name, value and kind of definition at an event, its target and a property of it
  *names() {
    const names = ["a", "value", "checked", "files", "type", "name", "dataset", "size", "length", "view", "ABC", "A_B", "A1", "aB", "__x", "toJSON",
      "toString", "constructor", "0", "parentNode", "innerHTML", "children", "scrollTop", "clientX", "_l", "elements"];
    const values = [...PRIMS.keys(), r(3), r(4)];
    for (const k of ["plain", "node", "event", "form", "blob", "bare"])
      for (const name of names) for (const v of values) for (const how of ["", "h", "g", "t", "ht"])
        for (const d of [0, 2, 3, 4]) {
          const holder = { k, p: [["ok", 0], [name, v, how], ["z", 2]] };
          const rest = [{ k: "array", p: [["0", 0], ["1", 10], ["2", r(1)]] }, { k: "plain", p: [["q", 3], ["c", r(2)]] }];
          yield [[{ k: "event", p: [["target", r(2)], ["type", 0]] }, { k: "plain", p: [["deep", 1]] }, holder, ...rest], d];
          if (k === "event") yield [[holder, { k: "plain", p: [] }, { k: "plain", p: [["b", r(0)]] }, ...rest], d];
        }
  },
  // every pair of definitions of the properties of a form control
  *controls() {
    const names = ["value", "checked", "files", "type", "name", "dataset"];
    const hows = ["", "h", "g", "t", "ht"];
    const file = { k: "blob", p: [["name", 0, "g"], ["size", 3, "g"], ["type", 15, "g"], ["lastModified", 2, "g"], ["arrayBuffer", 12, "g"]] };
    const slot = { value: [0, 1, 2, 9, 8], checked: [6, 7], files: [r(2), 8], type: [0, 1], name: [0, 15], dataset: [r(4)] };
    for (const [n1, n2] of product(names, names)) if (n1 < n2)
      for (const [v1, v2, h1, h2, kind, d] of product(slot[n1], slot[n2], hows, hows, ["node", "plain"], [0, 2, 3, 4, 5]))
        yield [[{ k: "event", p: [["type", 0], ["target", r(1)], ["currentTarget", r(1)]] }, { k: kind, p: [["id", 0], [n1, v1, h1], [n2, v2, h2], ["after", 3]] },
          { k: "list", p: [["0", r(3)], ["1", r(3)]] }, file, { k: "plain", p: [["userId", 0], ["x", 1]] }], d];
  },
  // forms: elements by name and as a list
  *forms() {
    const names = [0, 15, 1, 9];
    const input = (kind, name, v, hidden) => ({ k: kind, p: [["name", name, hidden], ["value", v, hidden], ["checked", 6, hidden], ["form", r(1), hidden], ["files", r(5), hidden]] });
    for (const [n1, n2, h1, h2, he, own, d] of product(names, names, ["", "h", "g", "t", "ht"], ["", "h"], ["", "h", "g", "t"], ["", "s", "name"], [0, 2, 3, 4, 5]))
      yield [[{ k: "event", p: [["type", 0], ["target", r(1)]] }, { k: "form", p: [...(own ? [[own, 0]] : []), ["elements", r(2), he], ["id", 1, "g"]] },
        { k: "list", p: [["0", r(3)], ["1", r(4)]] }, input("node", n1, 0, h1), input("node", n2, 15, h2), { k: "list", p: [] }], d];
  },
  // what a selection refers to
  *selections() {
    const nodes = [[{ k: "node", p: [["nodeValue", 0, "g"], ["parentNode", r(0), "g"], ["data", 15], ["self", r(2)], ["up", r(0)]] }], [{ k: "node", p: [["value", 0, "t"], ["data", 0]] }],
      [{ k: "list", p: [["0", r(1)]] }], [{ k: "node", p: [["value", 0, "ht"], ["name", 0, "h"], ["data", 0]] }], [{ k: "node", p: [["data", 10], ["sym", 11]] }]];
    for (const [[n], [m]] of product(nodes, nodes))
      for (const sel of [[null, null], [2, null], [2, 2], [2, 3], [3, 1], [0, 2]])
        for (const d of [0, 1, 2, 3])
          yield [[{ k: "event", p: [["type", 0], ["target", r(1)]] }, { k: "plain", p: [["a", 0], ["b", r(2)]] }, n, m], d, sel];
  },
};

// ---- objects no description covers: each has properties `before` and `after` that have to survive
function hostile() {
  class Fresh { get before() { return 1; } get next() { return new Fresh(); } }
  for (const k of ["before", "next"]) Object.defineProperty(Fresh.prototype, k, { ...Object.getOwnPropertyDescriptor(Fresh.prototype, k), enumerable: true });
  class FreshFiles { get files() { return new FreshFiles(); } }
  class FreshFileLists { get files() { return [new FreshFileLists()]; } }
  class FreshData { get dataset() { return new FreshData(); } get value() { return new FreshData(); } }
  const flip = (a, b, n) => { let i = 0; return { get x() { return i++ % n ? b : a; }, set x(_) {} }; };
  const cyc = {}; cyc.me = cyc;
  const t = (traps) => new Proxy({ x: 1 }, Object.fromEntries(traps.map((k) => [k, () => { throw new Error("trap"); }])));
  const full = []; for (let i = 0; i < 4; i++) full.push({ id: i }); for (const a of full) full.forEach((b, j) => (a["n" + j] = b));
  return {
    fresh: () => new Fresh(), files: () => new FreshFiles(), filelists: () => new FreshFileLists(), data: () => new FreshData(),
    flip1: () => flip(1, cyc, 2), flip2: () => flip(cyc, () => 1, 3), flip3: () => flip(1, 2n, 2), flip4: () => { let i = 0; return { get x() { return i++ < 2 ? 1 : cyc; } }; },
    ownKeys: () => t(["ownKeys"]), get: () => t(["get"]), has: () => t(["has"]), proto: () => t(["getPrototypeOf"]), all: () => t(["ownKeys", "get", "has", "getPrototypeOf", "getOwnPropertyDescriptor"]),
    revoked: () => { const p = Proxy.revocable({}, {}); p.revoke(); return p.proxy; },
    length: () => ({ get length() { throw new Error("length"); }, x: 1 }), lengthNaN: () => ({ length: NaN, x: 1, [Symbol.iterator]() {} }),
    lengthNegative: () => ({ length: -3, x: 1, [Symbol.iterator]() {} }), iterator: () => ({ length: 1, get [Symbol.iterator]() { throw new Error("it"); } }),
    tag: () => ({ length: 1, 0: 1, [Symbol.iterator]() {}, get [Symbol.toStringTag]() { throw new Error("tag"); } }),
    items: () => { const a = [1, 2]; Object.defineProperty(a, 0, { get() { throw new Error("item"); } }); return a; },
    map: () => new Map([[1, cyc]]), set: () => new Set([cyc]), weak: () => new WeakMap(), date: () => new Date(NaN), error: () => new Error("e"), regex: () => /x/g, promise: () => Promise.resolve(),
    typed: () => new Float64Array([1, NaN]), boxed: () => new String("ab"), number: () => new Number(1), big: () => Object(1n), symbol: () => Object(Symbol("q")),
    buffer: () => new ArrayBuffer(3), gen: () => (function* () { yield 1; })(), args: () => (function () { return arguments; })(1, cyc), full: () => full[0],
    toJSON: () => ({ toJSON() { throw new Error("toJSON"); } }), valueOf: () => ({ valueOf() { throw new Error("v"); }, toString() { throw new Error("s"); } }),
    nullproto: () => Object.create(null), frozen: () => Object.freeze({ a: Object.freeze([1]) }),
    elements: () => { const f = Object.create(dom.HTMLFormElement.prototype); Object.defineProperty(f, "elements", { get() { throw new Error("el"); } }); return f; },
    named: () => { const f = Object.create(dom.HTMLFormElement.prototype); const el = Object.create(dom.Node.prototype); Object.defineProperty(el, "name", { get() { throw new Error("el"); } }); Object.defineProperty(f, "elements", { value: [el, null, 3, { name: "ok", v: 1 }] }); return f; },
    sparse: () => [, 1, , 2],
  };
}
const levels = (v) => (v === null || typeof v !== "object" ? 0 : 1 + Math.max(0, ...Object.values(v).map(levels)));
const isPlain = (v) => (v === null || ["string", "number", "boolean"].includes(typeof v)) || (typeof v === "object" && [Array.prototype, Object.prototype].includes(Object.getPrototypeOf(v)) && Reflect.ownKeys(v).every((k) => typeof k === "string" && (k === "length" || isPlain(v[k]))));

export function hostiles(convert, depth) {
  const failures = [];
  let n = 0;
  const things = hostile();
  const at = {
    event: (x) => ({ before: 1, x, after: 2 }),
    target: (x) => ({ before: 1, target: { before: 1, x, after: 2 }, after: 2 }),
    list: (x) => ({ before: 1, target: [1, x, 2], after: 2 }),
    value: (x) => ({ before: 1, target: Object.defineProperties({ before: 1, after: 2 }, { value: { value: x }, name: { value: "n" } }), after: 2 }),
    files: (x) => ({ before: 1, target: Object.defineProperties({ before: 1, after: 2 }, { files: { value: [x] }, name: { value: "n" } }), after: 2 }),
    dataset: (x) => ({ before: 1, target: Object.defineProperties({ before: 1, after: 2 }, { dataset: { value: x }, name: { value: "n" } }), after: 2 }),
    form: (x) => ({ before: 1, target: Object.defineProperties(Object.assign(Object.create(dom.HTMLFormElement.prototype), { before: 1, after: 2 }), { elements: { value: [{ name: "a", value: x, z: 1 }, { name: "b", z: 1 }] } }), after: 2 }),
    selection: null,
  };
  for (const [what, make] of Object.entries(things)) for (const [where, put] of Object.entries(at)) {
    n++;
    let got;
    try {
      let ev;
      if (put) ev = put(make());
      else { ev = Object.assign(new dom.Event("x"), { before: 1, after: 2 }); globalThis.window.getSelection = () => ({ type: "Range", anchorNode: make(), focusNode: make(), toString: () => "text" }); }
      got = convert(ev, depth);
      const deep = levels(got);
      const text = JSON.stringify(got);
      if (!isPlain(got) && !(where === "selection")) failures.push(`${what} at ${where}, depth ${depth}: the result is not plain data: ${text}`);
      else if (text.includes("__stop__")) failures.push(`${what} at ${where}, depth ${depth}: includes the internal marker`);
      else if (deep > depth + 3) failures.push(`${what} at ${where}, depth ${depth}: ${deep} levels`);
      else if (got.before !== 1 || got.after !== 2) failures.push(`${what} at ${where}, depth ${depth}: lost the event's own fields: ${text}`);
      else if (where === "selection" && (got.selection === null || got.selection.selectedText !== "text")) failures.push(`${what} at ${where}, depth ${depth}: lost the selection: ${text}`);
      else if (depth > 1 && (where === "list" ? got.target?.[0] !== 1 || got.target.at(-1) !== 2 : where !== "event" && where !== "selection" && (got.target?.before !== 1 || got.target.after !== 2)))
        failures.push(`${what} at ${where}, depth ${depth}: lost the target's fields: ${text}`);
      else if (depth > 1 && ["value", "files", "dataset"].includes(where) && got.target.name !== "n") failures.push(`${what} at ${where}, depth ${depth}: lost the control's name: ${text}`);
      else if (depth > 2 && where === "form" && (got.target.a?.z !== 1 || got.target.b?.z !== 1)) failures.push(`${what} at ${where}, depth ${depth}: lost a control: ${text}`);
    } catch (e) { failures.push(`${what} at ${where}, depth ${depth}: ${e.message}`); }
    finally { globalThis.window.getSelection = () => null; }
    if (failures.length > 5) break;
  }
  return { n, failures };
}

/** The cases `part`, `part + parts`, ... of a family. */
export function convertGraph(convert, family, part, parts, big) {
  if (family === "hostile") return part < 12 ? hostiles(convert, part + 1) : { n: 0, failures: [] };
  let i = 0, n = 0;
  const failures = [];
  for (const [spec, depth, sel] of families[family](big)) {
    if (i++ % parts !== part) continue;
    n++;
    const d = judge(convert, spec, depth, sel);
    if (d) { failures.push(`${d} | graph ${JSON.stringify(spec)}, depth ${depth || 10}${sel ? `, selection ${JSON.stringify(sel)}` : ""}`); if (failures.length > 5) break; }
  }
  return { n, failures };
}
