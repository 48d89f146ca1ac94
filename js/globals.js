// Global names of a browser, installed before any of the client's modules is evaluated.
import * as dom from "./dom.js";

const g = globalThis;
const def = (o) => { for (const k in o) Object.defineProperty(g, k, { value: o[k], writable: true, configurable: true }); };

class Clock {
  constructor() { this.reset(); }
  reset() { this.now = 1_000_000; this.timers = new Map(); this.next = 1; this.log = []; }
  set(fn, ms, args, repeat) {
    const id = this.next++;
    ms = Math.max(0, Number(ms) || 0);
    this.timers.set(id, { id, at: this.now + ms, fn, args, repeat: repeat ? ms || 1 : 0 });
    this.log.push(ms);
    return id;
  }
  clear(id) { this.timers.delete(id); }
  due() {
    let best = null;
    for (const t of this.timers.values()) if (!best || t.at < best.at || (t.at === best.at && t.id < best.id)) best = t;
    return best;
  }
  fire(t) {
    this.now = Math.max(this.now, t.at);
    if (t.repeat) t.at += t.repeat; else this.timers.delete(t.id);
    t.fn(...t.args);
  }
}
export const clock = new Clock();

export class FakeWebSocket extends dom.EventTarget {
  static all = [];
  static CONNECTING = 0; static OPEN = 1; static CLOSING = 2; static CLOSED = 3;
  constructor(url) {
    super();
    this.CONNECTING = 0; this.OPEN = 1; this.CLOSING = 2; this.CLOSED = 3;
    this.url = String(url);
    this.readyState = 0;
    this.sent = [];
    this.lost = [];
    this.log = [];
    this.createdAt = clock.now;
    FakeWebSocket.all.push(this);
  }
  send(data) {
    if (this.readyState === 0) throw new Error("InvalidStateError: still connecting");
    this.log.push([clock.now, data]);
    (this.readyState === 1 ? this.sent : this.lost).push(data);
  }
  close() { if (this.readyState < 2) this.readyState = 2; }
  emit(type, fields) {
    const e = Object.assign(new dom.Event(type), fields);
    e.target = this;
    this["on" + type]?.(e);
    this.dispatchEvent(e);
  }
}

const real = { Date: g.Date, setImmediate: g.setImmediate };
class FakeDate extends real.Date {
  constructor(...a) { if (a.length) super(...a); else super(clock.now); }
  static now() { return clock.now; }
}
const timers = {
  setTimeout: (f, ms, ...a) => clock.set(f, ms, a),
  clearTimeout: (id) => clock.clear(id),
  setInterval: (f, ms, ...a) => clock.set(f, ms, a, true),
  clearInterval: (id) => clock.clear(id),
  requestAnimationFrame: (f) => clock.set(() => f(clock.now), 16, []),
  cancelAnimationFrame: (id) => clock.clear(id),
};
class WindowClass extends dom.EventTarget {}
export const win = new WindowClass();
export const logs = [];
const quiet = {};
for (const k of ["log", "info", "warn", "error", "debug", "trace"]) quiet[k] = (...a) => logs.push([k, a.map((x) => { try { return String(x); } catch { return "?"; } }).join(" ")]);
export const tick = () => new Promise((r) => real.setImmediate(r));

export function install() {
  def({
    ...timers, Date: FakeDate, WebSocket: FakeWebSocket, Event: dom.Event, EventTarget: dom.EventTarget, Node: dom.Node, Text: dom.Text,
    Element: dom.HTMLElement, HTMLElement: dom.HTMLElement, HTMLInputElement: dom.HTMLInputElement,
    HTMLTextAreaElement: dom.HTMLTextAreaElement, HTMLSelectElement: dom.HTMLSelectElement, HTMLFormElement: dom.HTMLFormElement,
    Document: dom.Document, Window: WindowClass, CSSStyleSheet: dom.CSSStyleSheet, CSSStyleDeclaration: dom.CSSStyleDeclaration,
    customElements: dom.customElements, console: quiet, window: win, performance: { now: () => clock.now },
    queueMicrotask: (f) => Promise.resolve().then(f),
  });
  Object.assign(win, timers, {
    location: { protocol: "http:", host: "testserver", hostname: "testserver", origin: "http://testserver", pathname: "/start", search: "", href: "http://testserver/start" },
    Event: dom.Event, HTMLFormElement: dom.HTMLFormElement, WebSocket: FakeWebSocket, Date: FakeDate, getSelection: () => null,
    addEventListener: win.addEventListener.bind(win), dispatchEvent: win.dispatchEvent.bind(win),
  });
  def({ location: win.location, addEventListener: win.addEventListener, navigator: { onLine: true }, self: win });
  fresh();
}
export function fresh() {
  clock.reset();
  FakeWebSocket.all = [];
  logs.length = 0;
  const d = new dom.Document();
  def({ document: d });
  win.document = d;
  Object.assign(win.location, { protocol: "http:", host: "testserver", hostname: "testserver", origin: "http://testserver" });
  win.location.pathname = "/start";
  win.location.search = "";
  for (const k in win._l) delete win._l[k];
}
install();
