// A document as small as the client of reactpy needs it
export class Node {
  constructor() {
    this.childNodes = [];
    this.parentNode = null;
  }
  appendChild(n) {
    return this.insertBefore(n, null);
  }
  insertBefore(n, before) {
    if (n.parentNode) n.parentNode.removeChild(n);
    const i = before ? this.childNodes.indexOf(before) : this.childNodes.length;
    this.childNodes.splice(i, 0, n);
    n.parentNode = this;
    if (this.isConnected) notify(n, "connectedCallback");
    return n;
  }
  removeChild(n) {
    const i = this.childNodes.indexOf(n);
    if (i < 0) throw new Error("not a child of this node");
    const was = this.isConnected;
    this.childNodes.splice(i, 1);
    n.parentNode = null;
    if (was) notify(n, "disconnectedCallback");
    return n;
  }
  get isConnected() {
    return this.connectedRoot === true || (this.parentNode !== null && this.parentNode.isConnected);
  }
}
function notify(n, what) {
  if (typeof n[what] === "function") n[what]();
  for (const c of [...n.childNodes]) notify(c, what);
}
let count = 0;
export class Element extends Node {
  constructor(tag) {
    super();
    this.tagName = tag;
    this.properties = {};
    this.style = {};
    this.id = ++count;
    if (["input", "select", "textarea"].includes(tag)) this.text = "";
  }
  // what the user sees in a field; the assigned value is a text, as in browsers
  get value() {
    return this.text;
  }
  set value(v) {
    this.writes = (this.writes || 0) + 1;
    this.text = v === null ? "" : String(v);
  }
  setAttribute(name, value) {
    this.properties[name] = value;
  }
  setProperty(name, value) {
    if (name === "value" && this.text !== undefined) this.value = value === undefined ? "" : value;
    else if (value === undefined || value === null) delete this.properties[name];
    else this.properties[name] = value;
  }
}
export class HTMLElement extends Element {
  constructor() {
    super("custom");
  }
}
export class Text extends Node {
  constructor(data) {
    super();
    this.data = data;
  }
}
const custom = new Map();
export const customElements = { get: (n) => custom.get(n), define: (n, c) => custom.set(n, c) };
export const document = {
  createElement: (tag) => {
    const Class = custom.get(tag);
    const e = Class ? new Class() : new Element(tag);
    e.tagName = tag;
    return e;
  },
  createTextNode: (t) => new Text(t),
};
