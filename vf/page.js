// Runs the browser script against a small DOM made from the real drawing.
// Reads one case per line {script, before, tree, messages}, writes for every
// message the text and fill of all elements with an id, per line.
"use strict";
const fs = require("fs");
const vm = require("vm");
const readline = require("readline");

class Style {
  setProperty(name, value) { this[name] = String(value); }
  getPropertyValue(name) { return this[name] === undefined ? "" : this[name]; }
  removeProperty(name) { delete this[name]; }
}

class Node {
  constructor(doc, name) {
    this.ownerDocument = doc;
    this.nodeName = name;
    this.childNodes = [];
    this.parentNode = null;
  }
  get parentElement() {
    return this.parentNode instanceof Element ? this.parentNode : null;
  }
  get children() { return this.childNodes.filter(n => n instanceof Element); }
  get firstChild() { return this.childNodes[0] || null; }
  get lastChild() { return this.childNodes[this.childNodes.length - 1] || null; }
  get firstElementChild() { return this.children[0] || null; }
  get lastElementChild() { let c = this.children; return c[c.length - 1] || null; }
  get childElementCount() { return this.children.length; }
  get nextElementSibling() { return sibling(this, 1); }
  get previousElementSibling() { return sibling(this, -1); }
  appendChild(node) {
    if (node.parentNode) node.parentNode.removeChild(node);
    node.parentNode = this;
    this.childNodes.push(node);
    return node;
  }
  append(...nodes) {
    for (const n of nodes) {
      this.appendChild(n instanceof Node ? n : new Text(this.ownerDocument, String(n)));
    }
  }
  removeChild(node) {
    const at = this.childNodes.indexOf(node);
    if (at < 0) throw new Error("not a child");
    this.childNodes.splice(at, 1);
    node.parentNode = null;
    return node;
  }
  remove() { if (this.parentNode) this.parentNode.removeChild(this); }
  replaceChildren(...nodes) {
    for (const n of [...this.childNodes]) this.removeChild(n);
    this.append(...nodes);
  }
  get textContent() { return this.childNodes.map(n => n.textContent).join(""); }
  set textContent(value) {
    this.replaceChildren();
    const text = value === null ? "" : String(value);
    if (text !== "") this.appendChild(new Text(this.ownerDocument, text));
  }
  contains(node) {
    for (; node; node = node.parentNode) if (node === this) return true;
    return false;
  }
  * walk() {
    for (const n of this.childNodes) {
      if (n instanceof Element) { yield n; yield* n.walk(); }
    }
  }
  getElementsByClassName(names) {
    const want = String(names).split(/\s+/).filter(Boolean);
    return collection(() => [...this.walk()].filter(
      n => want.every(c => n.classNames().includes(c))));
  }
  getElementsByTagName(name) {
    return collection(() => [...this.walk()].filter(
      n => name === "*" || n.tagName === name));
  }
  querySelectorAll(selector) {
    const test = compile(selector);
    return list([...this.walk()].filter(test));
  }
  querySelector(selector) { return this.querySelectorAll(selector)[0] || null; }
}

class Text extends Node {
  constructor(doc, data) { super(doc, "#text"); this.data = data; }
  get textContent() { return this.data; }
  set textContent(value) { this.data = String(value); }
  get nodeValue() { return this.data; }
  set nodeValue(value) { this.data = String(value); }
}

class Element extends Node {
  constructor(doc, name) {
    super(doc, name);
    this.tagName = name;
    this.attrs = new Map();
    this.style = new Style();
    const own = this;
    this.classList = {
      contains: c => own.classNames().includes(c),
      add: (...cs) => own.setAttribute("class", [...new Set([...own.classNames(), ...cs])].join(" ")),
      remove: (...cs) => own.setAttribute("class", own.classNames().filter(c => !cs.includes(c)).join(" ")),
      toggle: (c, force) => {
        const on = force === undefined ? !own.classNames().includes(c) : force;
        on ? own.classList.add(c) : own.classList.remove(c);
        return on;
      },
    };
    // only the svg element has this in browsers
    if (name === "svg") this.getElementById = id => byId(this, id);
  }
  classNames() { return (this.attrs.get("class") || "").split(/\s+/).filter(Boolean); }
  get id() { return this.attrs.get("id") || ""; }
  set id(value) { this.attrs.set("id", String(value)); }
  get className() { return { baseVal: this.attrs.get("class") || "" }; }
  getAttribute(name) { return this.attrs.has(name) ? this.attrs.get(name) : null; }
  setAttribute(name, value) { this.attrs.set(String(name), String(value)); }
  getAttributeNS(_ns, name) { return this.getAttribute(name); }
  setAttributeNS(_ns, name, value) { this.setAttribute(name, value); }
  removeAttribute(name) { this.attrs.delete(name); }
  hasAttribute(name) { return this.attrs.has(name); }
  get innerHTML() { return this.textContent; }
  set innerHTML(value) {
    const text = value === null ? "" : String(value);
    if (/[<&]/.test(text)) throw new Error("markup is not supported: " + text);
    this.textContent = text;
  }
  get dataset() {
    const own = this;
    const name = key => "data-" + String(key).replace(/[A-Z]/g, c => "-" + c.toLowerCase());
    return new Proxy({}, {
      get: (_t, key) => own.attrs.get(name(key)),
      set: (_t, key, value) => { own.attrs.set(name(key), String(value)); return true; },
    });
  }
  matches(selector) { return compile(selector)(this); }
  closest(selector) {
    const test = compile(selector);
    for (let n = this; n instanceof Element; n = n.parentNode) if (test(n)) return n;
    return null;
  }
  addEventListener() {}
}

class Document extends Node {
  constructor() {
    super(null, "#document");
    this.ownerDocument = this;
    this.later = [];
    this.readyState = "loading";
    this.body = this.appendChild(new Element(this, "body"));
    this.documentElement = this.body;
  }
  getElementById(id) { return byId(this, id); }
  createElement(name) { return new Element(this, name); }
  createElementNS(_ns, name) { return new Element(this, name); }
  createTextNode(text) { return new Text(this, String(text)); }
  addEventListener(_name, fn) { this.later.push(fn); }
}

function byId(root, id) {
  for (const n of root.walk()) if (n.attrs.get("id") === String(id)) return n;
  return null;
}

function sibling(node, step) {
  if (!node.parentNode) return null;
  const all = node.parentNode.children;
  return all[all.indexOf(node) + step] || null;
}

function array_like(get, extra) {
  return new Proxy({}, {
    get(_t, key) {
      const all = get();
      if (key === "length") return all.length;
      if (key === Symbol.iterator) return all[Symbol.iterator].bind(all);
      if (key === "item") return i => all[i] || null;
      if (key === "namedItem") return id => all.find(n => n.id === id) || null;
      if (extra && ["forEach", "entries", "keys", "values"].includes(key)) {
        return all[key].bind(all);
      }
      if (typeof key === "string" && /^\d+$/.test(key)) return all[Number(key)];
      return undefined;
    },
    has(_t, key) {
      return key === "length" || (typeof key === "string" && /^\d+$/.test(key) && Number(key) < get().length);
    },
    ownKeys() { return [...get().keys()].map(String); },
    getOwnPropertyDescriptor(_t, key) {
      const all = get();
      return /^\d+$/.test(key) && Number(key) < all.length
        ? { value: all[key], enumerable: true, configurable: true } : undefined;
    },
  });
}
const collection = get => array_like(get, false); // live, like HTMLCollection
const list = all => array_like(() => all, true); // fixed, like NodeList

// selectors: lists of compound selectors with descendant and child combinators
function compile(selector) {
  const parts = String(selector).split(",").map(chain);
  return node => parts.some(test => test(node));
}
function chain(text) {
  const tokens = text.replace(/\s*>\s*/g, " > ").trim().split(/\s+/);
  return node => matches(node, tokens.length - 1);
  function matches(node, at) {
    if (!compound(tokens[at])(node)) return false;
    if (at === 0) return true;
    if (tokens[at - 1] === ">") {
      return node.parentNode instanceof Element && matches(node.parentNode, at - 2);
    }
    for (let up = node.parentNode; up instanceof Element; up = up.parentNode) {
      if (matches(up, at - 1)) return true;
    }
    return false;
  }
}
function compound(text) {
  const tests = [];
  let rest = text;
  const eat = (re, make) => {
    const hit = re.exec(rest);
    if (!hit) return false;
    rest = rest.slice(hit[0].length);
    tests.push(make(hit));
    return true;
  };
  while (rest) {
    if (eat(/^\*/, () => () => true)) continue;
    if (eat(/^[A-Za-z][\w-]*/, h => n => n.tagName === h[0])) continue;
    if (eat(/^#((?:[\w-]|\\.)+)/, h => n => n.id === h[1].replace(/\\3(\d) ?/g, "$1").replace(/\\/g, ""))) continue;
    if (eat(/^\.([\w-]+)/, h => n => n.classNames().includes(h[1]))) continue;
    if (eat(/^\[([\w-]+)(?:([~^$*|]?=)["']?([^"'\]]*)["']?)?\]/, h => n => {
      const v = n.getAttribute(h[1]);
      if (v === null || !h[2]) return v !== null;
      if (h[2] === "=") return v === h[3];
      if (h[2] === "^=") return v.startsWith(h[3]);
      if (h[2] === "$=") return v.endsWith(h[3]);
      if (h[2] === "*=") return v.includes(h[3]);
      return v.split(/\s+/).includes(h[3]);
    })) continue;
    throw new Error("selector is not supported: " + text);
  }
  return node => tests.every(t => t(node));
}

function grow(doc, tree) {
  const [name, attrs, text, children, tail] = tree;
  const node = new Element(doc, name);
  for (const key of Object.keys(attrs)) node.attrs.set(key, attrs[key]);
  if (text) node.appendChild(new Text(doc, text));
  for (const child of children) {
    node.appendChild(grow(doc, child));
    if (child[4]) node.appendChild(new Text(doc, child[4]));
  }
  return node;
}

function look(doc) {
  const out = {};
  for (const node of doc.walk()) {
    const id = node.attrs.get("id");
    if (id === undefined) continue;
    if (out[id]) { out[id].push("twice"); continue; }
    const style = node.style.getPropertyValue("fill");
    out[id] = [node.textContent.trim(), style || node.attrs.get("fill") || ""];
  }
  return out;
}

const trees = new Map();
const scripts = new Map();

function script_of(path) {
  if (!scripts.has(path)) scripts.set(path, fs.readFileSync(path, "utf8"));
  return scripts.get(path);
}

async function run(spec) {
  if (spec.tree) trees.set(spec.key, spec.tree);
  const doc = new Document();
  const handlers = [];
  let timers = [];
  const later = fn => { timers.push(fn); return timers.length; };
  const socket = {
    on(name, fn) { handlers.push([name, fn, false]); return socket; },
    once(name, fn) { handlers.push([name, fn, true]); return socket; },
    emit() { return socket; },
    connect() { return socket; },
    open() { return socket; },
  };
  socket.addEventListener = socket.on;
  const io = () => socket;
  io.connect = io;
  const silent = () => {};
  const box = {
    document: doc, io, setTimeout: later, setInterval: later, requestAnimationFrame: later,
    queueMicrotask, console: { log: silent, error: silent, warn: silent, info: silent, debug: silent },
    clearTimeout: silent, addEventListener: (name, fn) => doc.later.push(fn),
    location: { host: "127.0.0.1", protocol: "http:", href: "http://127.0.0.1/" },
    CSS: { escape: s => String(s) },
  };
  const ctx = vm.createContext(box);
  vm.runInContext("var window = globalThis, self = globalThis;", ctx);
  const insert = () => doc.body.appendChild(grow(doc, trees.get(spec.key)));
  const settle = async () => {
    for (let i = 0; i < 50; i++) {
      await new Promise(setImmediate);
      const todo = timers;
      timers = [];
      if (!todo.length && i > 0) return;
      for (const fn of todo) fn();
    }
  };
  if (!spec.early) insert();
  vm.runInContext(script_of(spec.script), ctx, { timeout: 20000 });
  if (spec.early) insert();
  doc.readyState = "complete";
  for (const fn of doc.later.splice(0)) fn({});
  await settle();
  const out = [look(doc)];
  for (const text of spec.messages) {
    box.__text = text;
    for (const entry of [...handlers]) {
      if (entry[0] !== "config") continue;
      if (entry[2]) handlers.splice(handlers.indexOf(entry), 1);
      box.__fn = entry[1];
      vm.runInContext("__fn(JSON.parse(__text))", ctx, { timeout: 20000 });
    }
    await settle();
    out.push(look(doc));
  }
  return out;
}

async function main() {
  process.on("unhandledRejection", () => {});
  for await (const line of readline.createInterface({ input: process.stdin })) {
    let reply;
    try {
      reply = { looks: await run(JSON.parse(line)) };
    } catch (err) {
      reply = { error: String(err && err.stack || err).slice(0, 2000) };
    }
    process.stdout.write(JSON.stringify(reply) + "\n");
  }
}
main();
