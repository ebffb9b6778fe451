// The part of preact that the client of reactpy uses, over the document of dom.mjs.  State changes are rendered in a
// microtask; effects run when flushEffects is called ("after paint") or before the next render of their component.
const { document, Text } = globalThis.miniDom;

export const Fragment = (props) => props.children;
export function createElement(type, props, ...children) {
  const { key = undefined, ref = undefined, ...rest } = props || {};
  if (children.length) rest.children = children.length === 1 ? children[0] : children;
  return { type, props: rest, key: key === undefined || key === null ? undefined : key, ref };
}
export const jsx = (type, props, key) => createElement(type, key === undefined ? props : { ...props, key });
export const jsxs = jsx;
export const h = createElement;

export function createContext(initial) {
  const context = { initial, Provider: (props) => props.children };
  context.Provider.context = context;
  return context;
}

let current = null, at = 0;
const dirty = new Set(), waiting = new Set();
let scheduled = false;

class Instance {
  constructor(vnode, parent, host) {
    Object.assign(this, { vnode, parent, host, hooks: [], kids: [], gone: false, depth: parent ? parent.depth + 1 : 0, nodes: null });
  }
}

function hook(make) {
  const c = current, i = at++;
  if (i === c.hooks.length) c.hooks.push(make(c));
  return c.hooks[i];
}
export function useState(initial) {
  const s = hook((c) => {
    const s = { value: typeof initial === "function" ? initial() : initial };
    s.set = (v) => {
      const next = typeof v === "function" ? v(s.value) : v;
      if (!Object.is(next, s.value)) {
        s.value = next;
        if (!c.gone) schedule(c);
      }
    };
    return s;
  });
  return [s.value, s.set];
}
export const useReducer = (f, initial) => {
  const [v, set] = useState(initial);
  return [v, (a) => set((old) => f(old, a))];
};
export const useRef = (initial) => hook(() => ({ current: initial }));
export function useMemo(f, deps) {
  const m = hook(() => ({ deps: undefined }));
  if (changed(m.deps, deps)) {
    m.deps = deps;
    m.value = f();
  }
  return m.value;
}
export const useCallback = (f, deps) => useMemo(() => f, deps);
export function useEffect(f, deps) {
  const e = hook(() => ({ effect: true, deps: undefined }));
  if (changed(e.deps, deps)) {
    e.deps = deps;
    e.pending = f;
    waiting.add(current);
  }
}
export function useLayoutEffect(f, deps) {
  const e = hook(() => ({ effect: true, layout: true, deps: undefined }));
  if (changed(e.deps, deps)) {
    e.deps = deps;
    e.pending = f;
    layoutWaiting.push(current);
  }
}
export function useContext(context) {
  hook(() => ({}));
  for (let p = current.parent; p; p = p.parent) if (p.vnode.type.context === context) return p.vnode.props.value;
  return context.initial;
}
const layoutWaiting = [];
const changed = (a, b) => !a || !b || a.length !== b.length || b.some((x, i) => !Object.is(x, a[i]));

function runEffects(c, layout) {
  const due = c.hooks.filter((e) => e.effect && e.pending && !!e.layout === layout);
  for (const e of due) cleanUp(e);
  for (const e of due) {
    const f = e.pending;
    e.pending = null;
    e.cleanup = f();
  }
}
function cleanUp(e) {
  const f = e.cleanup;
  e.cleanup = null;
  if (typeof f === "function") f();
}
export function flushEffects() {
  while (waiting.size) {
    const [c] = waiting;
    waiting.delete(c);
    if (!c.gone) runEffects(c, false);
  }
}
function schedule(c) {
  dirty.add(c);
  if (!scheduled) {
    scheduled = true;
    Promise.resolve().then(flush);
  }
}
function flush() {
  scheduled = false;
  while (dirty.size) {
    const c = [...dirty].reduce((a, b) => (b.depth < a.depth ? b : a));
    dirty.delete(c);
    if (!c.gone) {
      renderComponent(c);
      place(c.host);
    }
  }
}

function flatten(x, out = []) {
  if (Array.isArray(x)) x.forEach((y) => flatten(y, out));
  else if (x === null || x === undefined || typeof x === "boolean") out.push(null);
  else if (typeof x === "object") out.push(x);
  else out.push({ type: null, props: String(x), key: undefined });
  return out;
}

function diffChildren(owner, vnodes, host) {
  const old = owner.kids, used = new Set(), kids = [];
  vnodes.forEach((v, i) => {
    if (!v) return kids.push(null);
    // as preact does: the one at the same place, else the nearest one
    const fits = (o) => o && !used.has(o) && o.vnode.type === v.type && o.vnode.key === v.key;
    let match = fits(old[i]) ? old[i] : null;
    for (let d = 1; !match && d < Math.max(old.length, vnodes.length) + 1; d++)
      match = fits(old[i - d]) ? old[i - d] : fits(old[i + d]) ? old[i + d] : null;
    if (match) used.add(match);
    kids.push(match ? update(match, v) : create(v, owner, host));
  });
  for (const o of old) if (o && !used.has(o)) unmount(o);
  owner.kids = kids;
}

function create(v, parent, host) {
  const c = new Instance(v, parent, host);
  if (v.type === null) c.node = new Text(v.props);
  else if (typeof v.type === "string") {
    c.node = document.createElement(v.type);
    c.host = host;
    setProps(c.node, {}, v.props);
    diffChildren(c, flatten(v.props.children), c);
    place(c);
    applyRef(v.ref, c.node);
  } else renderComponent(c);
  return c;
}
function update(c, v) {
  const old = c.vnode;
  c.vnode = v;
  if (v.type === null) c.node.data = v.props;
  else if (typeof v.type === "string") {
    setProps(c.node, old.props, v.props);
    diffChildren(c, flatten(v.props.children), c);
    place(c);
    if (old.ref !== v.ref) {
      applyRef(old.ref, null);
      applyRef(v.ref, c.node);
    }
  } else renderComponent(c);
  return c;
}
function renderComponent(c) {
  dirty.delete(c);
  if (waiting.delete(c)) runEffects(c, false);
  const saved = [current, at];
  current = c;
  at = 0;
  let out;
  try {
    out = c.vnode.type(c.vnode.props);
  } finally {
    [current, at] = saved;
  }
  diffChildren(c, flatten(out), c.host);
}
const applyRef = (ref, node) => ref && (typeof ref === "function" ? ref(node) : (ref.current = node));

function unmount(c) {
  c.gone = true;
  waiting.delete(c);
  dirty.delete(c);
  for (const e of c.hooks) if (e.effect) cleanUp(e);
  if (c.node) applyRef(c.vnode.ref, null);
  for (const k of c.kids) if (k) unmount(k);
}

const nodesOf = (c) => (c.node ? [c.node] : c.kids.flatMap((k) => (k ? nodesOf(k) : [])));
// puts the nodes of a host element in order, and removes what is not rendered anymore
function place(host) {
  if (!host) return;
  const want = host.kids.flatMap((k) => (k ? nodesOf(k) : [])), node = host.node;
  for (const n of [...node.childNodes]) if (n.owner === host && !want.includes(n)) node.removeChild(n);
  want.forEach((n, i) => {
    n.owner = host;
    if (node.childNodes[i] !== n) node.insertBefore(n, node.childNodes[i] || null);
  });
  while (layoutWaiting.length) runEffects(layoutWaiting.shift(), true);
}

function setProps(node, old, props) {
  for (const name of Object.keys(old)) if (name !== "children" && !(name in props)) node.setProperty(name, undefined);
  for (const [name, value] of Object.entries(props)) if (name !== "children" && old[name] !== value) node.setProperty(name, value);
}

const roots = new Map();
export function render(vnode, node) {
  let root = roots.get(node);
  if (!root) {
    root = new Instance({ type: Fragment, props: {} }, null, null);
    root.node = node;
    roots.set(node, root);
  }
  diffChildren(root, flatten(vnode), root);
  place(root);
  if (!vnode) roots.delete(node);
}
export default { createElement, Fragment, render, createContext, useState, useEffect, useRef, useContext, useMemo, useCallback };
