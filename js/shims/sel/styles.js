module.exports = function (map) {
  if (typeof map === "function") return this.each(function () { const m = map.apply(this, arguments); for (const k in m) if (m[k] == null) this.style.removeProperty(k); else this.style.setProperty(k, m[k]); });
  for (const k in map) this.style(k, map[k]);
  return this;
};
