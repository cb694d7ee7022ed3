// d3-selection-multi: attrs({name: value}) or attrs(function returning one)
module.exports = function (map) {
  if (typeof map === "function") return this.each(function () { const m = map.apply(this, arguments); for (const k in m) one(this, k, m[k]); });
  for (const k in map) this.attr(k, map[k]);
  return this;
};
function one(n, k, v) { if (v == null) n.removeAttribute(k); else n.setAttribute(k, v); }
