// d3-jetpack: the first match, or a new element described by tag.class#id
module.exports = function (name) {
  const s = this.select(name);
  if (!s.empty()) return s;
  const m = name.match(/^([\w-]+)?((?:[.#][\w-]+)*)$/), parts = m[2] ? m[2].match(/[.#][\w-]+/g) : [];
  const n = this.append(m[1] || "div");
  const cls = parts.filter((p) => p[0] === ".").map((p) => p.slice(1)), id = parts.find((p) => p[0] === "#");
  if (cls.length) n.attr("class", cls.join(" "));
  if (id) n.attr("id", id.slice(1));
  return n;
};
