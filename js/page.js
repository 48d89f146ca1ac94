// Runs the scripts of parsed pages: one JSON page per line in, what it mounted and imported out.
"use strict";
const vm = require("vm");
const readline = require("readline");

class El {
  constructor(tag, attrs, text) { this.tagName = tag.toUpperCase(); this.attrs = attrs || {}; this.textContent = text || ""; this.childNodes = []; }
  get id() { return this.attrs.id || ""; } set id(v) { this.attrs.id = String(v); }
  get type() { return this.attrs.type || ""; } set type(v) { this.attrs.type = String(v); }
  get innerHTML() { return this.textContent; } set innerHTML(v) { this.textContent = String(v); }
  get text() { return this.textContent; } set text(v) { this.textContent = String(v); }
  get className() { return this.attrs.class || ""; } set className(v) { this.attrs.class = String(v); }
  getAttribute(n) { return n in this.attrs ? this.attrs[n] : null; }
  setAttribute(n, v) { this.attrs[n] = String(v); }
  hasAttribute(n) { return n in this.attrs; }
}

function matches(el, sel) {
  return sel.split(",").some((one) => {
    const parts = one.trim().match(/^[\w-]+|#[^#.[\]]+|\.[^#.[\]]+|\[[^\]]+\]/g) || [];
    return parts.join("") === one.trim() && parts.every((p) => {
      if (p[0] === "#") return el.id === p.slice(1);
      if (p[0] === ".") return el.className.split(/\s+/).includes(p.slice(1));
      if (p[0] === "[") {
        const m = p.slice(1, -1).match(/^([\w-]+)(?:=["']?([^"']*)["']?)?$/);
        return el.hasAttribute(m[1]) && (m[2] === undefined || el.getAttribute(m[1]) === m[2]);
      }
      return el.tagName === p.toUpperCase();
    });
  });
}

async function run(page) {
  const out = { mounts: [], errors: [], loaded: [] };
  const all = page.elements.map((e) => Object.assign(new El(e.tag, e.attrs, e.text), { place: e.place }));
  let seen = all; // what has been parsed when a script runs
  const added = [];
  const place = (o) => (added.push(o), o);
  const now = () => [...seen, ...added];
  const document = {
    getElementById: (id) => now().find((e) => e.id === String(id)) || null,
    querySelector: (s) => now().find((e) => matches(e, s)) || null,
    querySelectorAll: (s) => now().filter((e) => matches(e, s)),
    getElementsByTagName: (t) => now().filter((e) => e.tagName === t.toUpperCase()),
    createElement: (t) => new El(t),
    head: { appendChild: place, append: (...a) => a.forEach(place), prepend: (...a) => a.forEach(place), insertBefore: place },
    body: { appendChild: place, append: (...a) => a.forEach(place) },
  };
  const quiet = () => {};
  const globals = { document, console: { log: quiet, debug: quiet, info: quiet, warn: quiet, error: quiet }, JSON, URL };
  globals.window = globals.self = globals.globalThis = globals;
  const context = vm.createContext(globals);
  const later = [];
  for (const [i, e] of all.entries()) {
    if (e.tagName !== "SCRIPT") continue;
    const type = e.type.toLowerCase();
    if (type === "module") later.push(e);
    else if (["", "text/javascript", "application/javascript"].includes(type)) {
      seen = all.slice(0, i + 1);
      try { vm.runInContext(e.textContent, context); } catch (x) { out.errors.push(`script: ${x}`); }
    }
  }
  seen = all;
  for (const e of later) {
    try {
      const m = new vm.SourceTextModule(e.textContent, { context });
      await m.link(async (spec) => {
        out.loaded.push(spec);
        const s = new vm.SyntheticModule(["mountReactPy"], function () {
          this.setExport("mountReactPy", (o) => {
            const { mountElement, ...rest } = o;
            out.mounts.push({ client: spec, place: mountElement ? mountElement.place : null, options: rest });
          });
        }, { context });
        return s;
      });
      await m.evaluate();
    } catch (x) { out.errors.push(`module: ${x}`); }
  }
  out.maps = now().filter((e) => e.tagName === "SCRIPT" && e.type.toLowerCase() === "importmap").map((e) => e.textContent);
  return out;
}

(async () => {
  for await (const line of readline.createInterface({ input: process.stdin })) {
    process.stdout.write(JSON.stringify(await run(JSON.parse(line))) + "\n");
  }
})();
