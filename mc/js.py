"""The JavaScript client, built from /repo's sources, in a Node process with a virtual browser.

    bundle(scratch)   builds the client (esbuild) together with js/*.js into scratch/client.mjs
    Browser(path)     one process; `run(ops)` executes operations (js/main.js) and returns what can be observed
"""
from __future__ import annotations

import atexit
import json
import os
import shutil
import subprocess

from .report import REPO, ROOT

NODE = "/usr/bin/node" if os.path.exists("/usr/bin/node") else "node"
ESBUILD = "/opt/veriftools/node/node_modules/.bin/esbuild"
JS = os.path.join(ROOT, "js")


class BuildError(Exception):
    pass


def bundle(scratch):
    pk = os.path.join(REPO, "src/js/packages")
    out = os.path.join(scratch, "client.mjs")
    alias = {
        "preact": "preact.js", "preact/hooks": "preact.js", "preact/compat": "preact.js", "preact/compat/client": "preact.js",
        "preact/jsx-runtime": "preact.js", "preact/jsx-dev-runtime": "preact.js", "preact/compat/jsx-runtime": "preact.js",
        "preact/debug": "preact.js", "json-pointer": "json-pointer.js",
    }
    cmd = [ESBUILD, os.path.join(JS, "main.js"), "--bundle", "--format=esm", "--platform=node", "--log-level=error", f"--outfile={out}",
           "--jsx=automatic", "--jsx-import-source=preact", "--external:react", "--external:react-dom/client",
           f"--alias:@reactpy/client={pk}/@reactpy/client/src/index.ts", f"--alias:event-to-object={pk}/event-to-object/src/index.ts"]
    cmd += [f"--alias:{k}={os.path.join(JS, v)}" for k, v in alias.items()]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise BuildError(p.stderr)
    return out


REACT = """
const P = globalThis.modulePreact;
const made = new WeakSet();
const own = (e) => { if (e && typeof e === "object") made.add(e); return e; };
export const createElement = (...a) => own(P.createElement(...a));
export const isOwn = (e) => made.has(e);
"""
REACT_DOM = """
import { isOwn } from "react";
const P = globalThis.modulePreact;
const roots = new WeakMap();
let count = 0;
export function createRoot(node) {
  if (roots.get(node)) throw new Error("createRoot() was called again for an element which has a root");
  const id = count++, log = (what) => (globalThis.reactRoots ||= []).push([id, what]);
  const root = {
    render(e) {
      if (roots.get(node) !== root) throw new Error("cannot update an unmounted root");
      if (e !== null && !isOwn(e)) throw new Error("not an element of React");
      log("render");
      P.render(e, node);
    },
    unmount() {
      if (roots.get(node) !== root) return;
      roots.delete(node);
      log("unmount");
      P.render(null, node);
    },
  };
  roots.set(node, root);
  return root;
}
"""


def with_react(path):
    """The same bundle in a place where React can be imported (a stand-in, which insists on its protocol)."""
    d = os.path.join(os.path.dirname(path), "with-react")
    for name, text in (("react/index.js", REACT), ("react/package.json", '{"name": "react", "type": "module", "exports": "./index.js"}'),
                       ("react-dom/client.js", REACT_DOM),
                       ("react-dom/package.json", '{"name": "react-dom", "type": "module", "exports": {"./client": "./client.js"}}')):
        f = os.path.join(d, "node_modules", name)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        with open(f, "w") as out:
            out.write(text)
    out = os.path.join(d, "client.mjs")
    shutil.copy(path, out)
    return out


class Died(Exception):
    pass


class Browser:
    def __init__(self, path):
        self.p = subprocess.Popen([NODE, "--stack-size=4000", path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, bufsize=1 << 16)
        atexit.register(self.close)

    def ask(self, request):
        try:
            self.p.stdin.write(json.dumps(request) + "\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except BrokenPipeError:
            line = ""
        if not line:
            raise Died("the client's process ended")
        r = json.loads(line)
        if "error" in r:
            raise Died(r["error"])
        return r["ok"]

    def run(self, ops, effects=True, every=False):
        return self.ask({"ops": ops, "effects": effects, "every": every})

    def plain(self, op, *args):
        return self.ask({"plain": op, "args": args})

    def close(self):
        try:
            self.p.kill()
            self.p.wait()
        except OSError:
            pass


_mine = {}


def browser(path):
    """The browser of this process (one per forked worker)."""
    pid = os.getpid()
    if any(p != pid for p, _ in _mine):
        _mine.clear()
    if (pid, path) not in _mine:
        _mine[pid, path] = Browser(path)
    return _mine[pid, path]


def drop():
    for k in [k for k in _mine if k[0] == os.getpid()]:
        _mine.pop(k).close()
