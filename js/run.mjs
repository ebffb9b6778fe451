// Executes generated histories on the client of reactpy: node run.mjs BUNDLE JOBS -> one line of JSON per job
import { readFileSync, writeSync } from "node:fs";
import { pathToFileURL } from "node:url";
import * as dom from "./dom.mjs";

const realImmediate = setImmediate;
const settle = async () => {
  for (let i = 0; i < 4; i++) await new Promise((r) => realImmediate(r));
};

// ------------------------------------------------------------------ the browser
let now = 0, timers = [], timerCount = 0;
const BASE = 1.7e12;
const setTimer = (f, ms, ...args) => {
  const id = ++timerCount;
  timers.push({ id, due: now + Math.max(0, Number(ms) || 0), f: () => f(...args), delay: ms });
  return id;
};
const clearTimer = (id) => {
  timers = timers.filter((t) => t.id !== id);
};
function advance(to) {
  for (let n = 0; ; n++) {
    if (n > 20000) throw new Error("timers without end");
    const due = timers.filter((t) => t.due <= to).sort((a, b) => a.due - b.due || a.id - b.id)[0];
    if (!due) break;
    clearTimer(due.id);
    now = Math.max(now, due.due);
    due.f();
  }
  now = Math.max(now, to);
}
class Sock {
  static CONNECTING = 0;
  static OPEN = 1;
  static CLOSING = 2;
  static CLOSED = 3;
  constructor(url) {
    this.readyState = 0;
    this.n = sockets.length;
    this.url = String(url);
    sockets.push(this);
    const u = new URL(this.url);
    note(["socket", u.protocol + "//" + u.host + u.pathname, u.searchParams.getAll("path"), u.searchParams.getAll("qs"), sockets.filter((s) => s !== this && s.readyState < 3).length]);
  }
  send(data) {
    if (this.readyState === 0) throw new Error("InvalidStateError");
    note([this.readyState === 1 ? "sent" : "lost", this.n, now, JSON.parse(data)]);
  }
  close() {
    note(["closed by the client", this.n]);
    this.readyState = 2;
  }
}
let sockets = [], notes = [];
const note = (x) => notes.push(x);
class Plain {}
class UiEvent {
  constructor(fields) {
    Object.assign(this, fields);
    Object.defineProperty(this, "calls", { value: [], enumerable: false });
  }
  preventDefault() {
    this.calls.push("preventDefault");
  }
  stopPropagation() {
    this.calls.push("stopPropagation");
  }
}
const location = { protocol: "http:", host: "site.example", pathname: "/", search: "", origin: "http://site.example" };
globalThis.miniDom = dom;
let importModule = () => {};
globalThis.importModule = (url) => importModule(url);
Object.assign(globalThis, {
  window: globalThis, location, document: dom.document, HTMLElement: dom.HTMLElement, Node: dom.Node, customElements: dom.customElements, WebSocket: Sock,
  Event: UiEvent, Window: class {}, Document: class {}, CSSStyleSheet: class {}, CSSStyleDeclaration: class {}, HTMLFormElement: class extends dom.Node {}, DOMStringMap: class {},
  setTimeout: setTimer, clearTimeout: clearTimer,
});
Date.now = () => BASE + now;
for (const m of ["log", "info", "warn", "error", "debug"]) console[m] = () => {};
process.on("unhandledRejection", (e) => String(e).includes("no such module") || note(["rejected", String(e)]));

const client = await import(pathToFileURL(process.argv[2]).href);
const { flushEffects } = client;

const newRoot = () => {
  const root = new dom.Element("root");
  root.connectedRoot = true;
  return root;
};

// ------------------------------------------------------------------ kinds of histories
const kinds = {
  conn(cfg) {
    const urls = { componentUrl: new URL("ws://site.example/app/comp"), jsModulesPath: "file:///modules/" };
    let c, root = newRoot();
    if (cfg.mount) {
      location.protocol = cfg.https ? "https:" : "http:";
      client.mountReactPy({ mountElement: root, pathPrefix: cfg.prefix, componentPath: cfg.component || undefined, reconnectInterval: cfg.interval,
        reconnectMaxInterval: cfg.max, reconnectMaxRetries: cfg.retries, reconnectBackoffMultiplier: cfg.num / cfg.den });
    } else
      c = new client.ReactPyClient({ urls, mountElement: root, reconnectOptions: { interval: cfg.interval, maxInterval: cfg.max, maxRetries: cfg.retries, backoffMultiplier: cfg.num / cfg.den } });
    const stop = {};
    const last = () => sockets[sockets.length - 1];
    return {
      reg: (o) => {
        if (cfg.mount) flushEffects();
        else stop[o.h] = c.onMessage(o.type, (m) => note(["got", o.h, m]));
      },
      unreg: (o) => stop[o.h](),
      send: (o) => c.sendMessage({ type: "layout-event", m: o.m }),
      open: () => {
        last().readyState = 1;
        last().onopen({});
      },
      closing: () => {
        last().readyState = 2;
      },
      close: () => {
        last().readyState = 3;
        last().onclose({ code: 1006 });
      },
      recv: (o) => last().onmessage({ data: JSON.stringify(o.type === "" ? { m: o.m } : { type: o.type, m: o.m, path: "", model: { tagName: "p" } }) }),
      tick: () => {
        const due = Math.min(...timers.map((t) => t.due));
        note(["waited", due - now, timers.length]);
        advance(due);
      },
      wait: () => advance(now + 1e6),
      nav: (o) => {
        location.pathname = o.path;
        location.search = o.qs;
      },
    };
  },

  // a Layout with scripted messages; shared by the following
  async layout(cfg) {
    const root = newRoot();
    const c = new client.ReactPyClient({ urls: { componentUrl: new URL("ws://site.example/"), jsModulesPath: "/modules/" }, mountElement: root, reconnectOptions: { interval: 100, maxInterval: 100, maxRetries: 0, backoffMultiplier: 1 } });
    const pending = [];
    importModule = (url) => new Promise((resolve, reject) => {
      if (String(url).startsWith("react")) return cfg.react && cfg.react[url] ? resolve(cfg.react[url]) : reject(new Error("no such module"));
      const [, name] = /^(?:\/modules\/(\w)\.js|https:\/\/cdn\.example\/(\w)\.mjs)$/.exec(url)?.filter((x) => x) || [, url === "/modules/https://cdn.example/B.mjs" ? "C" : null];
      if (!name) note(["asked for", url]);
      pending.push({ name, resolve, reject });
    });
    client.preactRender(client.preactCreate(client.Layout, { client: c }), root);
    flushEffects();
    await settle();
    sockets[0].readyState = 1;
    sockets[0].onopen({});
    notes = [];
    return { root, c, pending, update: (path, model) => sockets[0].onmessage({ data: JSON.stringify({ type: "layout-update", path, model }) }) };
  },

  async coalesce(cfg) {
    const l = await kinds.layout(cfg);
    const all = () => l.root.childNodes[0];
    const show = (hs) => l.update("", {
      tagName: cfg.tag, attributes: {}, eventHandlers: Object.fromEntries(hs.map((x, i) => [`on${i + 1}`, {
        target: `t${i + 1}`, ...(x.thr >= 0 ? { throttle: x.thr } : {}), ...(x.deb >= 0 ? { debounce: x.deb } : {}), ...(x.prevent ? { preventDefault: true } : {}), ...(x.stop ? { stopPropagation: true } : {}) }])) });
    show(cfg.hs);
    return {
      after: () => client.flushEffects(),
      ev: (o) => {
        const e = new UiEvent({ arg: o.a });
        all().properties[`on${o.h}`](e);
        note(["flags", e.calls.includes("preventDefault"), e.calls.includes("stopPropagation")]);
      },
      adv: (o) => advance(now + o.d),
      late: (o) => {
        now += o.d;
      },
      show: (o) => show(o.hs),
    };
  },

  async input(cfg) {
    const l = await kinds.layout(cfg);
    const el = () => l.root.childNodes[0];
    const limits = { ...(cfg.deb >= 0 ? { debounce: cfg.deb } : {}), ...(cfg.thr >= 0 ? { throttle: cfg.thr } : {}) };
    const numbers = [];
    const show = (u) => l.update("", {
      tagName: cfg.tag, attributes: { ...(cfg.value === "none" ? {} : { value: u.value }), ...(u.ack > 0 ? { _reactpy_ack_seq: Math.max(...numbers.slice(0, u.ack)) } : {}) },
      eventHandlers: { onInput: { target: "input", ...limits }, onKeyDown: { target: "key" } } });
    show({ value: cfg.value, ack: 0 });
    return {
      look: () => {
        numbers.push(...notes.filter((x) => x[0] === "sent").map((x) => x[3].seq));
        note(["shows", el().text, el().writes || 0, Object.keys(el().properties).filter((k) => !k.startsWith("on"))]);
      },
      paint: () => client.flushEffects(),
      type: (o) => {
        el().text = o.v;
        el().properties.onInput(new UiEvent({ arg: o.v }));
      },
      key: (o) => el().properties.onKeyDown(new UiEvent({ arg: o.v })),
      deliver: (o) => show(o.update),
      adv: (o) => advance(now + o.d),
      handle: () => {},
      render: () => {},
      push: () => {},
    };
  },

  async display(cfg) {
    const l = await kinds.layout(cfg);
    globalThis.ran = (...x) => note(["ran", ...x]);
    const ids = new Map();
    let identity = 0;
    const see = (n) => {
      if (n instanceof dom.Text) return n.data;
      if (!ids.has(n)) ids.set(n, ++identity);
      const a = Object.fromEntries(Object.entries(n.properties).filter(([, v]) => typeof v !== "function"));
      const on = Object.keys(n.properties).filter((k) => typeof n.properties[k] === "function").sort();
      return [n.tagName, a, on, n.childNodes.reduce((out, c) => {
        const x = see(c);
        if (typeof x === "string" && typeof out[out.length - 1] === "string") out.push(out.pop() + x);
        else out.push(x);
        return out;
      }, []), ids.get(n)];
    };
    const find = (id, n = l.root) => (n.properties && n.properties.id === id ? n : n.childNodes.reduce((got, c) => got || find(id, c), null));
    return {
      after: () => {
        flushEffects();
      },
      look: () => note(["dom", see(l.root)[3]]),
      update: (o) => l.update(o.path, o.model),
      wait: () => {},
      fire: (o) => {
        const n = find(o.at);
        const e = new UiEvent({ x: o.x });
        Object.defineProperty(e, "currentTarget", { value: n, enumerable: false });
        n.properties[o.name](e);
        note(["flags", e.calls.includes("preventDefault"), e.calls.includes("stopPropagation")]);
      },
    };
  },

  async imported(cfg) {
    const create = client.preactCreate;
    const bindings = [];
    // what the page offers to modules without a bind of their own: React as a whole, half of it, or nothing
    const roots = new Map();
    const react = { react: { createElement: (type, props, ...kids) => create(type, { ...props, "by-react": "1" }, ...kids) } };
    if (cfg.bind === "react")
      react["react-dom/client"] = {
        createRoot: (node) => {
          if (roots.has(node)) note(["a second root"]);
          const root = {
            ended: false,
            render: (e) => {
              if (root.ended) throw new Error("Cannot update an unmounted root.");
              client.preactRender(e, node);
            },
            unmount: () => {
              if (root.ended) note(["root unmounted again"]);
              root.ended = true;
              roots.delete(node);
              client.preactRender(null, node);
            },
          };
          roots.set(node, root);
          return root;
        },
      };
    const l = await kinds.layout(cfg.bind === "react" || cfg.bind === "half" ? { react } : {});
    const show = (tag) => (props) => {
      if ((cfg.bind === "react") !== ("by-react" in props)) note(["made by", props["by-react"]]);
      return create(tag, { title: props.title, onClick: props.onClick }, props.children);
    };
    const module = (name) => ({
      Main: show("main"), Other: { Inner: show("inner") },
      ...(cfg.bind === "own" || cfg.bind.startsWith("no-") ? {
        bind: (node, context) => {
          if (cfg.bind.startsWith("no-")) return Object.fromEntries(["create", "render", "unmount"].filter((x) => x !== cfg.bind.slice(3)).map((x) => [x, () => note(["used", x])]));
          const b = { n: bindings.length + 1, name, node, ends: 0, stop: null, say: () => context.sendMessage({ type: "custom", from: name }) };
          bindings.push(b);
          note(["bind", name, node.isConnected]);
          return {
            create: (type, props, children) => create(type, props, ...(children || [])),
            render: (e) => {
              if (b.ends && !(name === "C" && node.isConnected)) note(["rendered after its end", name]);
              if (!b.stop) b.stop = context.onMessage("custom", () => note(["heard", name]));
              client.preactRender(e, node);
            },
            unmount: () => {
              note(["unmount", name]);
              b.ends++;
              if (b.stop) b.stop();
              b.stop = null;
              client.preactRender(null, node);
            },
          };
        },
      } : {}),
    });
    const see = (n) => (n instanceof dom.Text ? n.data : [n.tagName, n.properties.title || "", n.childNodes.map(see)]);
    const find = (v, n = l.root) => (n.properties && n.properties.title === v ? n : n.childNodes.reduce((got, c) => got || find(v, c), null));
    const arrive = (name, how) => {
      const mine = l.pending.filter((p) => p.name === name);
      l.pending.splice(0, l.pending.length, ...l.pending.filter((p) => p.name !== name));
      note(["asked", mine.length > 0]);
      mine.forEach(how);
    };
    return {
      look: () => (note(["roots", roots.size]), note(["dom", l.root.childNodes[0] ? l.root.childNodes[0].childNodes.map(see) : []])),
      after: async () => {
        for (let i = 0; i < 4; i++) {
          client.flushEffects();
          await settle();
        }
      },
      update: (o) => l.update("", o.model),
      load: (o) => arrive(o.src, (p) => p.resolve(module(o.src))),
      fail: (o) => arrive(o.src, (p) => p.reject(new Error("no such module"))),
      say: (o) => {
        for (let n = find(o.v); n; n = n.parentNode) {
          const b = bindings.filter((b) => b.node === n).pop();
          if (b) return b.say();
        }
      },
      event: (o) => find(o.v).properties.onClick(...o.args.map((a) => ({ event: new UiEvent({ arg: 1 }), number: 1.5, zero: 0, text: "text", empty: "", yes: true, no: false, null: null, list: [1, "", [true]] })[a])),
      custom: () => sockets[0].onmessage({ data: JSON.stringify({ type: "custom" }) }),
    };
  },
};

// ------------------------------------------------------------------ objects converted to plain data
const BASES = { obj: class {}, event: UiEvent, dataset: DOMStringMap, style: CSSStyleDeclaration, element: class extends dom.Node {}, input: class extends dom.Node {},
  select: class extends dom.Node {}, form: HTMLFormElement, list: class {} };
function build(g) {
  const LEAVES = { null: null, undef: undefined, func: () => 1, window: new Window(), document: new Document(), sheet: new CSSStyleSheet(), num: 1.5, zero: 0, empty: "", yes: true, no: false };
  const made = g.map((o) => (o.cls === "array" ? [] : Object.create(Object.create(BASES[o.cls].prototype))));
  const value = (v) => (v.t === "ref" ? made[v.i - 1] : v.t === "str" ? v.s : LEAVES[v.t]);
  g.forEach((o, n) => {
    const x = made[n], class_ = Object.getPrototypeOf(x);
    const hide = (name, v) => Object.defineProperty(x, name, { value: v, enumerable: false, configurable: true, writable: true });
    const items = o.items.map(value);
    if (o.cls === "array") x.push(...items);
    if (["list", "style", "form", "select"].includes(o.cls)) {
      // these have a length and can be iterated
      const all = o.cls === "form" ? o.elements.map((i) => made[i - 1]) : items;
      hide("length", all.length);
      all.forEach((v, i) => hide(i, v));
      hide(Symbol.iterator, () => all[Symbol.iterator]());
    }
    if (o.cls === "form") hide("elements", o.elements.map((i) => made[i - 1]));
    for (const f of o.fields) {
      const get = f.where.startsWith("bad") ? () => { throw new Error("cannot be read"); } : () => value(f.v);
      const listed = !f.where.includes("hidden");
      if (f.where === "own") Object.defineProperty(x, f.name, { value: value(f.v), enumerable: true, writable: true, configurable: true });
      else Object.defineProperty(f.where === "proto" ? class_ : x, f.name, { get, enumerable: listed, configurable: true });
    }
  });
  return made;
}
kinds.convert = (cfg) => {
  for (const c of cfg.cases) {
    const made = build(c.g);
    const at = c.sel.t === "ref" ? made[c.sel.i - 1] : null;
    const before = window.getSelection;
    if (c.sel.t === "null") delete window.getSelection;
    else window.getSelection = () => ({ type: "Range", anchorNode: at, anchorOffset: 0, focusNode: at, focusOffset: 2, isCollapsed: false, rangeCount: 1, toString: () => "text" });
    try {
      note([JSON.parse(JSON.stringify(c.max === 10 ? client.convert(made[0]) : client.convert(made[0], c.max)))]);
    } catch (e) {
      note(["raised " + String(e && e.stack)]);
    }
    if (before) window.getSelection = before;
  }
  return {};
};

// ------------------------------------------------------------------ a page with its scripts (answers one operation at a time)
kinds.page = async (cfg) => {
  const { default: vm } = await import("node:vm");
  const roots = cfg.ids.map((id) => Object.assign(newRoot(), { pageId: id }));
  const inserted = [];
  Object.assign(location, { protocol: cfg.https ? "https:" : "http:", pathname: cfg.path, search: cfg.qs, origin: (cfg.https ? "https:" : "http:") + "//site.example" });
  document.getElementById = (id) => roots.find((r) => r.pageId === id) || inserted.find((e) => e.id === id) || null;
  const matches = (e, q) => {
    const m = /^([\w-]*)(?:#([\w-]+))?((?:\[[\w-]+(?:=["']?[^"'\]]*["']?)?\])*)$/.exec(q.trim().split(/\s+|>/).pop());
    if (!m) throw new Error("selector " + q);
    const [tag, id, rest] = [m[1], m[2], [...m[3].matchAll(/\[([\w-]+)(?:=["']?([^"'\]]*)["']?)?\]/g)]];
    return (!tag || tag === (e.tag || e.tagName)) && (!id || e.id === id || e.pageId === id) && rest.every(([, k, v]) => e[k] !== undefined && (v === undefined || e[k] === v));
  };
  const all = (q) => [...roots, ...inserted].filter((e) => q.split(",").some((one) => matches(e, one)));
  document.querySelector = (q) => all(q)[0] || null;
  document.querySelectorAll = all;
  const create = document.createElement;
  document.createElement = (tag) => (tag === "script" ? { tag, setAttribute(k, v) { this[k] = v; } } : create.call(document, tag));
  const insert = (e) => {
    inserted.push(e);
    note(["inserted", e.type, e.id, e.textContent ?? e.innerHTML ?? e.text]);
    return e;
  };
  document.head = { appendChild: insert, append: insert, prepend: insert };
  for (const t of cfg.scripts.filter((t) => t.type !== "module")) vm.runInThisContext(t.text);
  for (const t of cfg.scripts.filter((t) => t.type === "module")) {
    const before = sockets.length;
    const m = new vm.SourceTextModule(t.text);
    await m.link((url) => {
      note(["imports", url]);
      return new vm.SyntheticModule(["mountReactPy"], function () { this.setExport("mountReactPy", client.mountReactPy); });
    });
    await m.evaluate();
    flushEffects();
    await settle();
    note(["mounted", sockets.slice(before).map((s) => s.url)]);
  }
  const retry = new Map();
  const show = (n) => (n instanceof dom.Text ? n.data : n.tagName === "button" ? "" : n.childNodes.map(show).join(""));
  const find = (tag, n) => (n.tagName === tag ? n : n.childNodes.reduce((got, c) => got || find(tag, c), null));
  return {
    after: async () => {
      flushEffects();
      await settle();
      flushEffects();
    },
    look: () => note(["shown", roots.map((r) => r.childNodes.map(show).join(""))]),
    open: (o) => {
      sockets[o.n].readyState = 1;
      sockets[o.n].onopen({});
    },
    recv: (o) => sockets[o.n].onmessage({ data: o.data }),
    close: (o) => {
      const had = timers.map((t) => t.id);
      sockets[o.n].readyState = 3;
      sockets[o.n].onclose({ code: 1006 });
      const t = timers.filter((t) => !had.includes(t.id));
      retry.set(o.n, t[0]);
      note(["waits", t.map((t) => t.delay)]);
    },
    tick: (o) => {
      const t = retry.get(o.n), before = sockets.length;
      clearTimer(t.id);
      now = Math.max(now, t.due);
      t.f();
      note(["connects", sockets.slice(before).map((s) => s.url)]);
    },
    click: (o) => find("button", roots[o.r]).properties.onClick(new UiEvent({ x: o.x })),
    nav: (o) => Object.assign(location, { pathname: o.path, search: o.qs }),
  };
};

// ------------------------------------------------------------------ fields of a server (answers one operation at a time)
kinds.fields = async (cfg) => {
  const root = newRoot();
  client.mountReactPy({ mountElement: root, pathPrefix: "/reactpy/", reconnectInterval: 1e6, reconnectMaxInterval: 1e6, reconnectMaxRetries: 1000, reconnectBackoffMultiplier: 1 });
  flushEffects();
  await settle();
  const last = () => sockets[sockets.length - 1];
  const isField = (n) => ["input", "select", "textarea"].includes(n.tagName);
  const places = (n, out = []) => {
    if (n.tagName === "p" || isField(n)) out.push(n);
    else (n.childNodes || []).forEach((c) => places(c, out));
    return out;
  };
  return {
    after: async () => {
      flushEffects();
      await settle();
      flushEffects();
    },
    look: () => note(["fields", places(root).map((n) => (isField(n) ? n.text : "-"))]),
    open: () => {
      last().readyState = 1;
      last().onopen({});
    },
    closing: () => {
      last().readyState = 2;
    },
    break: () => {
      last().readyState = 3;
      last().onclose({ code: 1006 });
    },
    again: () => {
      // only the timers that reconnect take that long
      const t = timers.filter((t) => t.delay === 1e6);
      if (t.length !== 1) note(["reconnects", t.length]);
      t.forEach((t) => clearTimer(t.id));
      t.forEach((t) => t.f());
    },
    deliver: (o) => last().onmessage({ data: o.data }),
    type: (o) => {
      const n = places(root)[o.i];
      n.text = o.v;
      n.properties.onChange(new UiEvent({ target: { value: o.v } }));
    },
    adv: () => {
      now += 1e4;
      for (const t of timers.filter((t) => t.delay !== 1e6).sort((a, b) => a.due - b.due || a.id - b.id)) {
        clearTimer(t.id);
        t.f();
      }
    },
  };
};

async function reset() {
  client.flushEffects();
  await settle();
  now = 0;
  timers = [];
  sockets = [];
  notes = [];
  Object.assign(location, { protocol: "http:", pathname: "/", search: "", origin: "http://site.example" });
}
async function perform(k, f) {
  try {
    await f();
  } catch (e) {
    note(["raised", String(e && e.stack)]);
  }
  await settle();
  if (k && k.after) await k.after();
  await settle();
  if (k && k.look) k.look();
}
if (process.argv[3] === "-") {
  // one line of JSON for each operation, answered by what was noted
  const { createInterface } = await import("node:readline");
  let k = null;
  for await (const line of createInterface({ input: process.stdin })) {
    const o = JSON.parse(line);
    notes = [];
    if (o.kind) {
      await reset();
      k = null;
      await perform(null, async () => (k = await kinds[o.kind](o.cfg)));
      if (k) k.look();
    } else await perform(k, () => k[o.op](o));
    process.stdout.write(JSON.stringify(notes) + "\n");
  }
  process.exit(0);
}
const put = (text) => {
  for (let data = Buffer.from(text); data.length; ) {
    try {
      data = data.subarray(writeSync(1, data));
    } catch (e) {
      if (e.code !== "EAGAIN") throw e;
    }
  }
};
for (const job of JSON.parse(readFileSync(process.argv[3], "utf8"))) {
  await reset();
  const seen = [];
  try {
    const k = await kinds[job.kind](job.cfg);
    await settle();
    if (k.start) k.start();
    await settle();
    if (k.after) await k.after();
    await settle();
    if (k.look) k.look();
    seen.push(notes);
    for (const o of job.ops) {
      notes = [];
      try {
        k[o.op](o);
      } catch (e) {
        note(["raised", String(e && e.stack)]);
      }
      await settle();
      if (k.after) await k.after();
      await settle();
      if (k.look) k.look();
      seen.push(notes);
    }
  } catch (e) {
    notes.push(["broken", String(e && e.stack)]);
    seen.push(notes);
  }
  put(JSON.stringify(seen) + "\n");
}
process.exit(0);
