// h(selector or component, props, children)
const { createElement, Fragment, isValidElement } = require("./react.js");
function h(type, props, ...children) {
  if (Array.isArray(type)) return createElement(Fragment, null, ...type);
  if (props != null && (Array.isArray(props) || typeof props !== "object" || isValidElement(props))) { children.unshift(props); props = null; }
  props = { ...(props || {}) };
  if (typeof type === "string") {
    const m = type.match(/^([\w-]+)?((?:[.#][\w-]+)*)$/);
    if (!m) throw new Error("tag not understood: " + type);
    const parts = m[2] ? m[2].match(/[.#][\w-]+/g) : [];
    const cls = parts.filter((p) => p[0] === ".").map((p) => p.slice(1)), id = parts.find((p) => p[0] === "#");
    if (cls.length) props.className = [...cls, ...(props.className ? [props.className] : [])].join(" ");
    if (id) props.id = id.slice(1);
    type = m[1] || "div";
  }
  return createElement(type, props, ...children);
}
module.exports = h;
module.exports.default = h;
