// A small synchronous React: class and function components, the usual hooks,
// reconciliation by position (or key), host nodes in the small document.
const { El, makeDocument } = require("../dom.js");
const Fragment = Symbol("fragment");
class Component {
  constructor(props) { this.props = props; }
  setState(s, cb) {
    const next = typeof s === "function" ? s(this.state, this.props) : s;
    if (next == null) return;
    this.__pending = Object.assign({}, this.__pending || this.state, next);
    if (this.__unit) refresh(this.__unit); else { this.state = this.__pending; this.__pending = null; }
    if (cb) cb();
  }
  forceUpdate() { if (this.__unit) refresh(this.__unit); }
}
Component.prototype.isReactComponent = {};
function flat(x) { return Array.isArray(x) ? x.flatMap(flat) : x == null || typeof x === "boolean" ? [] : [x]; }
function createElement(type, props, ...children) {
  const { key = null, ref = null, ...p } = props || {};
  if (children.length === 1) p.children = children[0];
  else if (children.length) p.children = children;
  return { $$: true, type, props: p, key, ref };
}
const isElement = (x) => x != null && x.$$ === true;
let current = null, doc = null;
const effects = [];
function host(tag, props) {
  const el = new El(tag, doc);
  el.__props = props;
  return el;
}
const withDefaults = (t, p) => ({ ...Object.fromEntries(Object.entries(t.defaultProps || {}).filter(([k]) => p[k] === undefined)), ...p });
function mount(v, parent) {
  const u = { v, parent, kids: [], el: null };
  if (!isElement(v)) { u.text = String(v); return u; }
  const t = v.type;
  if (typeof t === "string" || t === Fragment || t === undefined) {
    if (t === undefined) throw new Error("element type is undefined");
    if (typeof t === "string") { u.el = host(t, v.props); setHost(u); }
    u.kids = flat(v.props.children).map((c) => mount(c, u));
    attach(u);
    setRef(u);
    return u;
  }
  const P = withDefaults(t, v.props);
  if (t.prototype && t.prototype.isReactComponent) {
    u.inst = new t(P);
    u.inst.props = P;
    u.inst.refs = u.inst.refs || {};
    u.inst.__unit = u;
    if (u.inst.state === undefined) u.inst.state = null;
    u.kids = flat(u.inst.render()).map((c) => mount(c, u));
    if (u.inst.componentDidMount) effects.push(() => u.inst.componentDidMount());
  } else {
    u.hooks = [];
    u.kids = flat(run(u, t, P)).map((c) => mount(c, u));
  }
  setRef(u);
  return u;
}
function setRef(u) { const r = u.v.ref; if (r == null || typeof r === "string") return; const val = u.inst || u.el; if (typeof r === "function") r(val); else r.current = val; }
function setHost(u) {
  const p = u.v.props, el = u.el;
  el.__props = p;
  if (p.className != null) el.setAttribute("class", p.className);
  if (p.id != null) el.setAttribute("id", p.id);
}
const hosts = (u) => (u.text != null ? [] : u.el ? [u.el] : u.kids.flatMap(hosts));
function attach(u) { if (!u.el) return; const k = u.kids.flatMap(hosts); if (k.length || u.owned) { u.owned = true; for (const c of [...u.el.childNodes]) if (!k.includes(c) && c.__props) u.el.removeChild(c); for (const c of k) u.el.appendChild(c); } }
function run(u, t, P) {
  const old = current;
  current = { u, i: 0 };
  try { return t(P); } finally { current = old; }
}
function unmount(u) {
  for (const k of u.kids) unmount(k);
  if (u.inst && u.inst.componentWillUnmount) u.inst.componentWillUnmount();
  for (const h of u.hooks || []) if (h.clean) h.clean();
}
function children(u, list) {
  const old = u.kids.slice();
  u.kids = list.map((c, i) => {
    const key = isElement(c) ? c.key : null;
    const j = key != null ? old.findIndex((o) => o && isElement(o.v) && o.v.key === key) : old[i] && !(isElement(old[i].v) && old[i].v.key != null) ? i : -1;
    if (j >= 0) { const o = old[j]; old[j] = null; if (o.text != null && !isElement(c)) { o.text = String(c); o.v = c; return o; } if (o.text == null && isElement(c) && o.v.type === c.type) { update(o, c); return o; } unmount(o); }
    return mount(c, u);
  });
  for (const o of old) if (o) unmount(o);
}
function update(u, v) {
  u.v = v;
  const t = v.type;
  if (u.el || t === Fragment) { if (u.el) setHost(u); children(u, flat(v.props.children)); attach(u); return; }
  const P = withDefaults(t, v.props);
  if (u.inst) {
    const pp = u.inst.props, ps = u.inst.state;
    if (u.inst.__pending) { u.inst.state = u.inst.__pending; u.inst.__pending = null; }
    u.inst.props = P;
    children(u, flat(u.inst.render()));
    if (u.inst.componentDidUpdate) effects.push(() => u.inst.componentDidUpdate(pp, ps));
  } else children(u, flat(run(u, t, P)));
}
function reattach(u) { for (let p = u.parent; p; p = p.parent) if (p.el) { attach(p); return; } if (u.root) u.root(); let r = u; while (r.parent) r = r.parent; if (r.root) r.root(); }
let depth = 0;
function flush() { if (depth) return; depth++; try { let n = 0; while (effects.length) { if (++n > 10000) throw new Error("endless updates"); effects.shift()(); } } finally { depth--; } }
function refresh(u) { update(u, u.v); reattach(u); flush(); }
const hook = (make) => { const { u } = current; const i = current.i++; if (u.hooks.length <= i) u.hooks.push(make(u)); return u.hooks[i]; };
const changed = (a, b) => !a || !b || a.length !== b.length || a.some((x, i) => !Object.is(x, b[i]));
const useState = (init) => { const h = hook((u) => { const s = { v: typeof init === "function" ? init() : init }; s.set = (v) => { const n = typeof v === "function" ? v(s.v) : v; if (Object.is(n, s.v)) return; s.v = n; refresh(u); }; return s; }); return [h.v, h.set]; };
const useRef = (v) => hook(() => ({ r: { current: v ?? null } })).r;
const useEffect = (f, deps) => { const h = hook(() => ({})); if (changed(h.deps, deps)) { h.deps = deps; effects.push(() => { if (h.clean) h.clean(); h.clean = f() || null; }); } };
const useMemo = (f, deps) => { const h = hook(() => ({})); if (changed(h.deps, deps)) { h.deps = deps; h.v = f(); } return h.v; };
const useReducer = (red, init) => { const [s, set] = useState(init); return [s, (a) => set((x) => red(x, a))]; };
// Renders into an element of the small document; returns {unit, el}
function render(v, el) {
  if (!isElement(v)) throw new Error("not an element");
  doc = el.ownerDocument;
  if (el.__root && el.__root.v.type === v.type) { update(el.__root, v); el.__root.root(); flush(); return el.__root.inst || null; }
  const u = mount(v, null);
  u.root = () => { const k = hosts(u); for (const c of [...el.childNodes]) if (!k.includes(c)) el.removeChild(c); for (const c of k) el.appendChild(c); };
  u.root();
  el.__root = u;
  flush();
  return u.inst || null;
}
function findDOMNode(x) { if (x == null) return null; if (x instanceof El) return x; return hosts(x.__unit)[0] || null; }
// text and host elements under a unit
const textOf = (u) => (u.text != null ? u.text : u.kids.map(textOf).join(""));
const findAll = (u, f) => (u.text != null ? [] : [...(f(u) ? [u] : []), ...u.kids.flatMap((k) => findAll(k, f))]);
module.exports = { Component, PureComponent: Component, createElement, Fragment, isValidElement: isElement, useState, useRef, useEffect, useLayoutEffect: useEffect, useMemo, useReducer, useCallback: (f, d) => useMemo(() => f, d),
  createContext: (v) => { const c = { v, Provider: (p) => { c.v = p.value; return p.children; }, Consumer: (p) => p.children(c.v) }; c.ctx = c; return c; }, useContext: (c) => c.v, forwardRef: (f) => (p) => f(p, p.forwardedRef),
  StrictMode: Fragment, cloneElement: (e, p, ...c) => ({ ...e, props: { ...e.props, ...p, ...(c.length ? { children: c.length === 1 ? c[0] : c } : {}) } }), Children: { map: (c, f) => flat(c).map(f), toArray: flat, forEach: (c, f) => flat(c).forEach(f), count: (c) => flat(c).length, only: (c) => flat(c)[0] },
  useImperativeHandle: () => {}, useDebugValue: () => {}, unstable_batchedUpdates: (f) => f(),
  render, findDOMNode, textOf, findAll, makeDocument, memo: (c) => c, createRef: () => ({ current: null }) };
module.exports.default = module.exports;
