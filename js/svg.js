// Reading back what d3 drew.
module.exports = (d3) => {
  const cls = (el) => (el.getAttribute("class") || "").split(/\s+/).filter(Boolean);
  const numbers = (d) => ((d || "").match(/-?\d+(\.\d+)?(e-?\d+)?/g) || []).map(Number);
  function box(n) { let x0 = Infinity, x1 = -Infinity, y0 = Infinity, y1 = -Infinity; for (let i = 0; i + 1 < n.length; i += 2) { x0 = Math.min(x0, n[i]); x1 = Math.max(x1, n[i]); y0 = Math.min(y0, n[i + 1]); y1 = Math.max(y1, n[i + 1]); } return [x0, x1, y0, y1]; }
  const plain = (d) => (d || "").replace(/A[^MLZA]*/g, "");
  // Is d what the projection makes of the datum?
  function same(d, want) {
    if ((d || "") === (want || "")) return true;
    if (!d || !want) return false;
    const a = numbers(plain(d)), w = numbers(plain(want));
    if (a.length === w.length && a.every((x, i) => Math.abs(x - w[i]) < 0.01)) return true;
    return box(a).every((x, i) => Math.abs(x - box(w)[i]) < 1) && Math.abs(a.length - w.length) < 0.2 * w.length;
  }
  function fresh(el, path) {
    const d = el.getAttribute("d"), datum = d3.select(el).datum();
    if (same(d, path(datum))) return true;
    // What lies exactly on the edge may be shown or not
    const proj = path.projection(), c = proj.clipAngle && proj.clipAngle();
    if (!c) return false;
    try { return [c + 1e-3, c - 1e-3].some((v) => { proj.clipAngle(v); return same(d, path(datum)); }); } finally { proj.clipAngle(c); }
  }
  const dir = ([lon, lat]) => { const r = Math.PI / 180; return [Math.cos(lat * r) * Math.sin(lon * r), -Math.cos(lat * r) * Math.cos(lon * r), Math.sin(lat * r)]; };
  const pos = ([x, y, z]) => [(Math.atan2(x, -y) * 180) / Math.PI, (Math.asin(Math.max(-1, Math.min(1, z))) * 180) / Math.PI];
  const LABELS = { N: [180, 0], E: [90, 0], S: [0, 0], W: [-90, 0], Up: [0, 90], Down: [0, -90] };
  // Labels of the six directions
  const labels = (svg, proj, size) => {
    const centre = proj.invert([size / 2, size / 2]);
    return svg.querySelectorAll("g.label").map((g) => {
      const t = g.querySelector("text"), name = t.textContent, p = proj(LABELS[name] || [0, 0]);
      const m = numbers(t.getAttribute("transform"));
      return { name, known: name in LABELS, shown: g.style.getPropertyValue("display") !== "none", off: Math.hypot(m[0] - p[0], m[1] - p[1]), dist: (d3.geoDistance(centre, LABELS[name] || [0, 0]) * 180) / Math.PI };
    });
  };
  // A drawn item: the group of one plane or normal
  const item = (g) => {
    const d = d3.select(g).datum(), n = d.axes ? d.axes[2] : null;
    return { kind: cls(g).find((k) => k === "plane" || k === "normal") || null, uid: d.uid, inGroup: cls(g).includes("in-group"), isGroup: cls(g).includes("is-group"), paths: g.childNodes.map((p) => {
      const f = d3.select(p).datum();
      const o = { cls: cls(p), fill: p.getAttribute("fill"), stroke: p.getAttribute("stroke"), dash: p.getAttribute("stroke-dasharray"), style: { ...p.style.map } };
      if (f && f.geometry && f.geometry.type === "LineString") { if (n) o.off = Math.max(...f.geometry.coordinates.map((c) => { const v = dir(c); return Math.abs(v[0] * n[0] + v[1] * n[1] + v[2] * n[2]); })); }
      else { o.area = d3.geoArea(f); if (n) { o.pole = d3.geoContains(f, pos(n)) && d3.geoContains(f, pos(n.map((x) => -x))); o.inplane = d3.geoContains(f, pos(d.axes[0])) && d3.geoContains(f, pos(d.axes[1])); } }
      return o;
    }) };
  };
  const sphere = (svg) => svg.querySelectorAll("path").find((p) => (d3.select(p).datum() || {}).type === "Sphere");
  const stale = (svg, path) => svg.querySelectorAll("path").filter((p) => d3.select(p).datum() !== undefined && !fresh(p, path)).map((p) => cls(p.parentNode).join(".") + " " + cls(p).join("."));
  return { cls, numbers, box, plain, fresh, dir, pos, LABELS, labels, item, sphere, stale };
};
