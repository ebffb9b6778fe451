// what the package json-pointer does for set()
const parse = (p) => {
  if (p === "") return [];
  if (p.charAt(0) !== "/") throw new Error("Invalid reference token: " + p);
  return p.substring(1).split("/").map((t) => t.replace(/~1/g, "/").replace(/~0/g, "~"));
};
export function set(obj, pointer, value) {
  const tokens = Array.isArray(pointer) ? pointer : parse(pointer);
  if (tokens.length === 0) throw new Error("Can not set the root document");
  let next = tokens[0], i = 0;
  for (; i < tokens.length - 1; ++i) {
    let tok = tokens[i];
    if (["__proto__", "constructor", "prototype"].includes(tok)) continue;
    if (tok === "-" && Array.isArray(obj)) tok = obj.length;
    next = tokens[i + 1];
    if (!(tok in obj)) obj[tok] = next.match(/^(\d+|-)$/) ? [] : {};
    obj = obj[tok];
  }
  if (next === "-" && Array.isArray(obj)) next = obj.length;
  obj[next] = value;
}
export function get(obj, pointer) {
  return parse(pointer).reduce((o, t) => {
    if (typeof o !== "object" || !(t in o)) throw new Error("Invalid reference token: " + t);
    return o[t];
  }, obj);
}
export default { set, get };
