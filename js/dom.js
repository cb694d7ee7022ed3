// A small document: what d3 needs to build, select, order and listen to SVG.
// Selectors: compound selectors joined by blanks or ">", alternatives joined by commas.
function compound(s, sel) {
  const m = s.match(/^([a-zA-Z*][\w-]*)?((?:[.#][\w-]+|\[[^\]]*\]|:first-child|:last-child)*)$/);
  if (!m) throw new Error("selector not understood: " + sel);
  const parts = m[2] ? m[2].match(/[.#][\w-]+|\[[^\]]*\]|:[\w-]+/g) : [];
  const pick = (c) => parts.filter((p) => p[0] === c).map((p) => p.slice(1));
  return { tag: m[1] && m[1] !== "*" ? m[1] : null, cls: pick("."), id: pick("#"), attr: pick("[").map((p) => p.slice(0, -1).split("=").map((q) => q.trim().replace(/^["']|["']$/g, ""))), place: pick(":") };
}
function parse(sel) {
  return String(sel).split(",").map((s) => {
    const chain = [];
    let child = false;
    for (const t of s.trim().replace(/\s*>\s*/g, " > ").split(/\s+/)) {
      if (t === ">") { child = true; continue; }
      chain.push({ ...compound(t, sel), child });
      child = false;
    }
    return chain;
  });
}
const one = (el, a) => (!a.tag || a.tag === el.tagName) && a.id.every((i) => el.getAttribute("id") === i) &&
  a.cls.every((c) => (el.getAttribute("class") || "").split(/\s+/).includes(c)) &&
  a.attr.every(([k, v]) => el.getAttribute(k) !== null && (v === undefined || el.getAttribute(k) === v)) &&
  a.place.every((p) => (p === "first-child" ? !el.previousSibling : !el.nextSibling));
function chained(el, chain, i) {
  if (!one(el, chain[i])) return false;
  if (i === 0) return true;
  for (let up = el.parentNode; up; up = up.parentNode) {
    if (chained(up, chain, i - 1)) return true;
    if (chain[i].child) return false;
  }
  return false;
}
const fits = (el, alts) => alts.some((c) => chained(el, c, c.length - 1));

class Style {
  constructor() { this.map = {}; }
  setProperty(k, v) { this.map[k] = String(v); }
  removeProperty(k) { delete this.map[k]; }
  getPropertyValue(k) { return k in this.map ? this.map[k] : ""; }
}
class El {
  constructor(tag, doc) { this.tagName = tag; this.nodeName = tag; this.ownerDocument = doc; this.namespaceURI = "http://www.w3.org/2000/svg"; this.attributes = {}; this.childNodes = []; this.parentNode = null; this.style = new Style(); this.text = null; this.handlers = {}; }
  get children() { return this.childNodes; }
  get parentElement() { return this.parentNode; }
  get firstChild() { return this.childNodes[0] || null; }
  get lastChild() { return this.childNodes[this.childNodes.length - 1] || null; }
  get nextSibling() { if (!this.parentNode) return null; const c = this.parentNode.childNodes; return c[c.indexOf(this) + 1] || null; }
  get previousSibling() { if (!this.parentNode) return null; const c = this.parentNode.childNodes; return c[c.indexOf(this) - 1] || null; }
  get textContent() { return (this.text || "") + this.childNodes.map((c) => c.textContent).join(""); }
  set textContent(t) { this.clear(); this.text = t == null ? null : String(t); }
  get innerHTML() { return this.textContent; }
  set innerHTML(t) { this.clear(); this.text = t || null; }
  clear() { for (const c of this.childNodes) c.parentNode = null; this.childNodes = []; this.text = null; }
  setAttribute(k, v) { this.attributes[k] = String(v); }
  setAttributeNS(ns, k, v) { this.attributes[k] = String(v); }
  getAttribute(k) { return Object.prototype.hasOwnProperty.call(this.attributes, k) ? this.attributes[k] : null; }
  getAttributeNS(ns, k) { return this.getAttribute(k); }
  hasAttribute(k) { return k in this.attributes; }
  removeAttribute(k) { delete this.attributes[k]; }
  removeAttributeNS(ns, k) { delete this.attributes[k]; }
  appendChild(c) { return this.insertBefore(c, null); }
  insertBefore(c, ref) {
    if (c.parentNode) c.parentNode.removeChild(c);
    const i = ref == null ? this.childNodes.length : this.childNodes.indexOf(ref);
    if (i < 0) throw new Error("not a child");
    this.childNodes.splice(i, 0, c); c.parentNode = this; return c;
  }
  removeChild(c) { const i = this.childNodes.indexOf(c); if (i < 0) throw new Error("not a child"); this.childNodes.splice(i, 1); c.parentNode = null; return c; }
  remove() { if (this.parentNode) this.parentNode.removeChild(this); }
  contains(n) { for (; n; n = n.parentNode) if (n === this) return true; return false; }
  all() { return this.childNodes.flatMap((c) => [c, ...c.all()]); }
  querySelectorAll(s) { const a = parse(s); return this.all().filter((e) => fits(e, a)); }
  querySelector(s) { return this.querySelectorAll(s)[0] || null; }
  matches(s) { return fits(this, parse(s)); }
  compareDocumentPosition(o) {
    const path = (n) => { const p = []; for (; n; n = n.parentNode) p.unshift(n); return p; };
    const a = path(this), b = path(o);
    if (a[0] !== b[0]) return 1;
    let i = 0;
    while (i < a.length && i < b.length && a[i] === b[i]) i++;
    if (i === a.length) return i === b.length ? 0 : 16 | 4;
    if (i === b.length) return 8 | 2;
    const kids = a[i - 1].childNodes;
    return kids.indexOf(a[i]) < kids.indexOf(b[i]) ? 4 : 2;
  }
  addEventListener(t, f) { (this.handlers[t] = this.handlers[t] || []).push(f); }
  removeEventListener(t, f) { this.handlers[t] = (this.handlers[t] || []).filter((g) => g !== f); }
  fire(t, more) { const e = { type: t, preventDefault() {}, stopPropagation() {}, target: this, currentTarget: this, ...more }; for (const f of [...(this.handlers[t] || [])]) f.call(this, e); return e; }
  focus() {}
  getBoundingClientRect() { return { left: 0, top: 0, width: 0, height: 0 }; }
}
function makeDocument() {
  const doc = { nodeType: 9 };
  doc.createElementNS = (ns, t) => new El(t, doc);
  doc.createElement = (t) => new El(t, doc);
  doc.documentElement = new El("html", doc);
  doc.querySelector = (s) => doc.documentElement.querySelector(s);
  doc.querySelectorAll = (s) => doc.documentElement.querySelectorAll(s);
  const win = new El("window", doc);
  win.document = doc;
  doc.defaultView = win;
  return doc;
}
// A plain description of a subtree
const tree = (e) => ({ tag: e.tagName, attrs: { ...e.attributes }, style: { ...e.style.map }, text: e.text, kids: e.childNodes.map(tree) });
module.exports = { makeDocument, El, tree };
