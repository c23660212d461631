// what the npm package json-pointer does, as far as the client uses it
export function parse(pointer) {
  if (pointer === "") return [];
  if (pointer.charAt(0) !== "/") throw new Error("Invalid JSON pointer: " + pointer);
  return pointer.substring(1).split(/\//).map((t) => t.replace(/~1/g, "/").replace(/~0/g, "~"));
}
export function compile(tokens) {
  if (!tokens.length) return "";
  return "/" + tokens.map((t) => String(t).replace(/~/g, "~0").replace(/\//g, "~1")).join("/");
}
export function get(obj, pointer) {
  for (const tok of Array.isArray(pointer) ? pointer : parse(pointer)) {
    if (!(typeof obj === "object" && tok in obj)) throw new Error("Invalid reference token: " + tok);
    obj = obj[tok];
  }
  return obj;
}
export function has(obj, pointer) { try { get(obj, pointer); return true; } catch { return false; } }
export function set(obj, pointer, value) {
  const tokens = Array.isArray(pointer) ? pointer : parse(pointer);
  if (!tokens.length) throw new Error("Can not set the root document");
  let next;
  for (let i = 0; i < tokens.length - 1; ++i) {
    let tok = tokens[i];
    if (tok === "__proto__" || tok === "constructor" || tok === "prototype") continue;
    if (tok === "-" && Array.isArray(obj)) tok = obj.length;
    next = tokens[i + 1];
    if (!(tok in obj)) obj[tok] = next.match(/^(\d+|-)$/) ? [] : {};
    obj = obj[tok];
  }
  let last = tokens[tokens.length - 1];
  if (last === "-" && Array.isArray(obj)) last = obj.length;
  obj[last] = value;
  return { set };
}
export function remove(obj, pointer) {
  const t = parse(pointer), last = t.pop(), p = get(obj, t);
  if (Array.isArray(p)) p.splice(+last, 1); else delete p[last];
}
export default { parse, compile, get, has, set, remove };
