// Executes operations on the client's real sources; one JSON request per line, one JSON answer per line.
import { clock, FakeWebSocket, fresh, logs, tick, win } from "./globals.js";
import * as dom from "./dom.js";
import * as preact from "preact";
import * as client from "@reactpy/client";
import eventToObject from "event-to-object";
import { convertGraph } from "./graphs.js";
import readline from "node:readline";
import { registerHooks } from "node:module";

let W = null; // the world of the current case

// what the server answers to requests for modules
let served = {};
registerHooks({
  resolve(spec, context, next) {
    if (!/^https?:/.test(spec)) return next(spec, context);
    if (!(spec in served)) throw new Error("no module at " + spec);
    return { url: served[spec], shortCircuit: true };
  },
});

// modules that are evaluated only when the case says so
let gates = {};
const gate = (n) => (gates[n] ||= Promise.withResolvers());
globalThis.moduleGate = (n) => gate(n).promise;
globalThis.modulePreact = preact;

const parse = JSON.parse;
let parsed = []; // updates the client has read
JSON.parse = (text, ...rest) => { const v = parse(text, ...rest); if (W && v && v.type === "layout-update") parsed.push([v]); return v; };

function start(cfg) {
  parsed = [];
  ops.calls();
  served = cfg.served || {};
  fresh();
  preact.reset();
  const mount = document.createElement("div");
  document.body.appendChild(mount);
  W = { mount, writes: [], errors: [], received: [], frames: 0, seen: 0 };
  globalThis.onValueWrite = (el, v) => W.writes.push([el.id_, el.value_, v]);
  if (cfg.path) win.location.pathname = cfg.path;
  if (cfg.search) win.location.search = cfg.search;
  if (cfg.host) Object.assign(win.location, { protocol: cfg.protocol, host: cfg.host, hostname: cfg.host, origin: `${cfg.protocol}//${cfg.host}` });
  client.mountReactPy({ mountElement: mount, pathPrefix: "/reactpy/", ...(cfg.props || {}) });
}
const sock = () => FakeWebSocket.all[FakeWebSocket.all.length - 1];
function find(test, n = W.mount) {
  if (n.nodeType === 1 && n !== W.mount && test(n)) return n;
  for (const c of n.childNodes) { const r = find(test, c); if (r) return r; }
  return null;
}
const byId = (id) => find((n) => n.attrs.id === id) || fail("no element " + id);
function fail(m) { throw new Error("harness: " + m); }

const ops = {
  start,
  open(i) { const s = i === undefined ? sock() : FakeWebSocket.all[i]; s.readyState = 1; s.emit("open"); },
  closing(i) { const s = i === undefined ? sock() : FakeWebSocket.all[i]; s.readyState = 2; },
  close(i) { const s = i === undefined ? sock() : FakeWebSocket.all[i]; s.readyState = 3; s.emit("close"); },
  batch(msgs) { for (const m of msgs) ops.recv(m); },
  // the first update that is no longer what it was when the client had handled it
  modified() { for (const [i, [m, text]] of parsed.entries()) if (JSON.stringify(m) !== text) return `update ${i} is ${JSON.stringify(m)}, was ${text}`; return null; },
  async settle(n) { for (let i = 0; i < n; i++) { await tick(); for (let j = 0; j < 50 && preact.pendingEffects(); j++) { preact.flushEffects(); await tick(); } } },
  error() { const s = sock(); s.emit("error"); },
  recv(text) {
    sock().emit("message", { data: JSON.stringify(text) });
    for (const m of parsed) m[1] ??= JSON.stringify(m[0]);
  },
  // an event at an element: [id, type, fields of the event, changes of the element before the event]
  event(id, type, fields, change) {
    const el = byId(id);
    if (change) for (const k in change) { if (k === "value") el.value_ = change[k]; else Object.defineProperty(el, k, { value: change[k], configurable: true, enumerable: true }); }
    const e = new dom.Event(type, { fields });
    el.dispatchEvent(e);
    return { prevented: e.defaultPrevented, stopped: e._stop };
  },
  wrap(id, type) { // whether an event would reach a handler
    return (byId(id)._l[type] || []).length;
  },
  advance(ms) { // fire everything due within the next `ms`
    const end = clock.now + ms;
    return (async () => {
      for (let n = 0; n < 10000; n++) {
        const t = clock.due();
        if (!t || t.at > end) { clock.now = end; return; }
        clock.fire(t);
        await tick();
      }
      fail("endless timers");
    })();
  },
  late(ms) { clock.now += ms; }, // time passes, timers are late
  timer() { const t = clock.due(); if (t) clock.fire(t); return !!t; },
  effects() { preact.flushEffects(); },
  location(path, search) { win.location.pathname = path; win.location.search = search; },
  visibility() { document.dispatchEvent(new dom.Event("visibilitychange")); win.dispatchEvent(new dom.Event("online")); },
  send(msg) { W.client.sendMessage(msg); },
  module(src) { W.module = src; },
  convert(family, part, parts, big) { return convertGraph(eventToObject, family, part, parts, big); },
  // a client of our own instead of the mounted one
  client(cfg) {
    fresh();
    preact.reset();
    W = { mount: document.createElement("div"), writes: [], errors: [], got: [] };
    document.body.appendChild(W.mount);
    W.client = new client.ReactPyClient({ urls: { componentUrl: new URL("ws://testserver/reactpy/"), jsModulesPath: "/m/" }, reconnectOptions: cfg, mountElement: W.mount });
  },
  gates() { for (const g of Object.values(gates)) g.resolve(); gates = {}; },
  load(n) { gate(n).resolve(); },
  fail(n) { const g = gate(n); g.promise.catch(() => {}); g.reject(new Error("module failed")); },
  roots() { return globalThis.reactRoots?.splice(0) ?? []; },
  calls() { return globalThis.moduleCalls?.splice(0) ?? []; },
  subscribe(n, type) { (W.off ||= {})[n] = W.client.onMessage(type, (m) => W.got.push([n, m])); },
  unsubscribe(n) { W.off[n](); },
  received() { return W.got; },
  ready() { W.client.onMessage("layout-update", (m) => W.got.push(m)); },
};

function report(full) {
  const r = {
    view: dom.describe(W.mount).children || [],
    sent: FakeWebSocket.all.map((s) => [...s.sent]),
    lost: FakeWebSocket.all.flatMap((s) => s.lost),
    timers: [...clock.timers.values()].map((t) => t.at - clock.now).sort((a, b) => a - b),
    now: clock.now,
    log: FakeWebSocket.all.flatMap((s) => s.log),
    sockets: FakeWebSocket.all.map((s) => [s.createdAt, s.url, s.readyState]),
    writes: W.writes.splice(0),
    pending: preact.pendingEffects(),
    errors: W.errors.splice(0),
  };
  return r;
}

process.on("uncaughtException", (e) => { W ? W.errors.push(String((e && e.stack) || e)) : (process.stderr.write(String(e.stack)), process.exit(3)); });
process.on("unhandledRejection", (e) => { W && W.errors.push(String((e && e.stack) || e)); });

async function run(list, effects, every) {
  const out = [];
  for (const [op, ...args] of list) {
    let value;
    try {
      if (!ops[op]) fail("unknown operation " + op);
      value = await ops[op](...args);
    } catch (e) {
      if (String(e.message).startsWith("harness:")) throw e;
      W.errors.push(String(e.stack || e));
    }
    await tick();
    if (effects) for (let i = 0; i < 50 && preact.pendingEffects(); i++) { preact.flushEffects(); await tick(); }
    if (every) out.push({ value, ...report() });
    else if (value !== undefined) out.push(value);
  }
  return every ? out : { values: out, ...report() };
}

const rl = readline.createInterface({ input: process.stdin });
let chain = Promise.resolve();
rl.on("line", (line) => {
  chain = chain.then(async () => {
    let answer;
    try {
      const q = parse(line);
      answer = q.plain ? await ops[q.plain](...q.args) : await run(q.ops, q.effects !== false, q.every);
      answer = JSON.stringify({ ok: answer === undefined ? null : answer });
    } catch (e) {
      answer = JSON.stringify({ error: String((e && e.stack) || e) });
    }
    process.stdout.write(answer + "\n");
  });
});
rl.on("close", () => chain.then(() => process.exit(0)));
