// The part of json-pointer the client may use, with the library's semantics.
export const parse = (p) => (p === "" ? [] : p.slice(1).split("/").map((s) => s.replace(/~1/g, "/").replace(/~0/g, "~")));
export function set(obj, pointer, value) {
  const toks = Array.isArray(pointer) ? pointer : parse(pointer);
  if (toks.length === 0) throw new Error("Can not set the root document");
  let o = obj;
  for (let i = 0; i < toks.length - 1; i++) {
    let t = toks[i];
    if (t === "__proto__" || t === "constructor" || t === "prototype") continue;
    if (t === "-" && Array.isArray(o)) t = o.length;
    const n = toks[i + 1];
    if (!(t in o)) o[t] = /^(\d+|-)$/.test(n) ? [] : {};
    o = o[t];
  }
  let last = toks[toks.length - 1];
  if (last === "-" && Array.isArray(o)) last = o.length;
  o[last] = value;
}
export function get(obj, pointer) {
  let o = obj;
  for (const t of Array.isArray(pointer) ? pointer : parse(pointer)) {
    if (!(typeof o == "object" && t in o)) throw new Error("Invalid reference token: " + t);
    o = o[t];
  }
  return o;
}
export function has(obj, p) { try { get(obj, p); return true; } catch { return false; } }
export function remove(obj, pointer) {
  const toks = parse(pointer), last = toks.pop(), o = get(obj, toks);
  Array.isArray(o) && /^\d+$/.test(last) ? o.splice(last, 1) : delete o[last];
}
export const compile = (t) => t.map((s) => "/" + String(s).replace(/~/g, "~0").replace(/\//g, "~1")).join("");
export default { set, get, has, remove, parse, compile };
