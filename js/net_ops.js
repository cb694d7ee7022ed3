// Stereonets set up, filled, turned and read back; the ready-made plots.
module.exports = (b) => {
  const { d3, core, plots, labels, React, ReactDOM } = b;
  const S = require("./svg.js")(d3);
  const { cls, numbers, box, plain } = S;
  console.log = () => {};
  const page = () => { const doc = React.makeDocument(); global.window = doc.defaultView; global.document = doc; return doc; };
  const projection = (v) => { const p = d3.geoAzimuthalEqualArea().rotate(v.rot).scale(v.scale).translate(v.translate).precision(0.01); return v.clip === null ? p : p.clipAngle(v.clip); };
  const textAt = (t) => ({ text: t.textContent, at: numbers(t.getAttribute("transform")) });
  function look(svg, v) {
    const proj = projection(v), path = d3.geoPath().projection(proj).pointRadius(2);
    const o = S.sphere(svg), bx = o && o.getAttribute("d") ? box(numbers(plain(o.getAttribute("d")))) : null;
    const lines = svg.querySelectorAll("path.graticule").map((p) => (d3.select(p).datum() || {}).coordinates || []).flat().map((l) => { const x = l.map((c) => c[0]), y = l.map((c) => c[1]); return [Math.min(...x), Math.max(...x), Math.min(...y), Math.max(...y)]; });
    const horizons = svg.querySelectorAll("g.horizontal").map((g) => { const f = g.querySelectorAll("path").map((p) => d3.select(p).datum()); return { n: f.length, off: Math.max(0, ...f.map((q) => Math.max(...q.geometry.coordinates.map((c) => Math.abs(c[1]))))), length: f.map((q) => d3.geoLength(q)) }; });
    const where = (t) => { let x = 0, y = 0; for (let e = t; e && e !== svg; e = e.parentNode) { const m = numbers(e.getAttribute("transform")); if (m.length) { x += m[0]; y += m[1] || 0; } } return { text: t.textContent, at: [x, y] }; };
    const sides = svg.querySelectorAll("text.axis-label").map(where);
    const az = svg.querySelectorAll("g.azimuthLabels"), dip = svg.querySelectorAll("g.dipLabels"), hz = svg.querySelectorAll("g.horizontal");
    return { size: [svg.getAttribute("width"), svg.getAttribute("height")].map(Number), radius: bx && (bx[1] - bx[0]) / 2, centre: bx && [(bx[0] + bx[1]) / 2, (bx[2] + bx[3]) / 2], stale: S.stale(svg, path),
      undrawn: svg.querySelectorAll("path").filter((p) => d3.select(p).datum() === undefined).length,
      containers: Object.fromEntries(["planes", "poles", "extra"].map((k) => [k, svg.querySelectorAll("g." + k).map((c) => c.childNodes.map(S.item))])),
      graticule: svg.querySelectorAll("path.graticule").length, labels: S.labels(svg, proj, v.size),
      azimuth: az.map((g) => g.querySelectorAll("text").filter((t) => !cls(t).includes("outer")).map(textAt)), dips: dip.map((g) => g.querySelectorAll("text.inner").map((t) => { const d = Number(t.textContent.replace("°", "")); const p = proj([220, 90 - d]); return { ...textAt(t), want: p }; })) , horizon: hz.length, lines, horizons, sides, clipped: svg.querySelectorAll("g").some((g) => !!g.getAttribute("clip-path")) };
  }
  // a color computed from each plane
  const own = (o) => (o && o.color === "by plane" ? { ...o, color: (d) => "#0000" + d.uid.slice(1) + d.uid.slice(1) } : o || undefined);
  return {
    history: ({ nets, steps, views }) => {
      const doc = page();
      const N = nets.map((n) => ({ net: core.Stereonet(n.interactive === null ? undefined : { interactive: n.interactive }), svg: doc.createElement("svg"), mounted: false, n }));
      const seen = [], got = [];
      steps.forEach((s, k) => {
        const x = N[s.net], f = x.net;
        let out = null;
        if (s.op === "set") { for (const [name, args] of s.calls) if (f[name](...args) !== f) out = name; }
        else if (s.op === "mount") { d3.select(x.svg).call(f); x.mounted = true; }
        else if (s.op === "planes") f.planes(x.n.data, own(s.options));
        else if (s.op === "poles") f.ellipses(x.n.data, own(s.options));
        else if (s.op === "labels") f.call(core.globalLabels());
        else if (s.op === "horizontal") f.horizontal();
        else if (s.op === "vertical") f.vertical(s.options || undefined);
        else if (s.op === "rotate") f.rotate(s.to);
        else if (s.op === "draw") f.draw();
        else if (s.op === "down") x.svg.fire("mousedown", { pageX: s.x, pageY: s.y });
        else if (s.op === "move") window.fire("mousemove", { pageX: s.x, pageY: s.y });
        else if (s.op === "up") window.fire("mouseup", { pageX: s.x, pageY: s.y });
        else throw new Error("step " + s.op);
        got.push({ out, rotate: N.map((y) => y.net.rotate()), size: f.size(), margin: f.margin(), clip: f.clipAngle(), centre: f.centerPosition(), middle: d3.geoRotation(views[k][s.net].rot).invert([0, 0]), net: f.projection().scale() });
        seen.push(N.map((y, i) => (y.mounted ? look(y.svg, views[k][i]) : null)));
      });
      return { seen, got };
    },
    // The ready-made plots, rendered again and again into one place
    plot: ({ kind, renders }) => {
      const doc = page();
      const root = doc.createElement("div");
      const out = [];
      let last = null;
      for (const r of renders) {
        if (r.same && last) r.data = last;
        last = r.data;
        const before = JSON.stringify(r.data);
        ReactDOM.render(React.createElement(kind === "vertical" ? plots.VerticalClippedStereonet : plots.RectangularStereonet, { data: r.data, ...(r.clip == null ? {} : { clipAngle: r.clip }) }), root);
        const svgs = root.querySelectorAll("svg");
        const svg = svgs[0];
        const proj = projection(r.view), path = d3.geoPath().projection(proj).pointRadius(2);
        const tick = (g) => { const [x, y] = numbers(g.getAttribute("transform")); return { text: g.querySelector("text").textContent, x, y, pos: proj.invert([x, y]) }; };
        const groups = svg.querySelectorAll("g.labels").map((c) => ({ ticks: c.childNodes.filter((g) => cls(g).includes("label")).map(tick), title: c.childNodes.filter((t) => t.tagName === "text").map((t) => t.textContent) }));
        out.push({ svgs: svgs.length, size: [svg.getAttribute("width"), svg.getAttribute("height")].map(Number), stale: S.stale(svg, path), items: svg.querySelectorAll("g").filter((g) => cls(g).includes("normal")).map(S.item),
          rects: svg.querySelectorAll("rect").map((q) => ["x", "y", "width", "height"].map((k) => Number(q.getAttribute(k)))), neatlines: svg.querySelectorAll("clipPath").length, labels: groups, intact: JSON.stringify(r.data) === before,
          azimuth: svg.querySelectorAll("g.azimuthLabels").map((g) => g.querySelectorAll("text").filter((t) => !cls(t).includes("outer")).map(textAt)) });
      }
      return out;
    },
    opacity: ({ errors, color, domain, custom, alias }) => {
      const doc = page();
      return errors.map((e) => {
        const f = core.opacityByCertainty(() => color);
        if (domain) f.domain(domain);
        if (custom) f.angularError((d) => d.other);
        const el = doc.createElement("path");
        const d = custom ? { other: e, max_angular_error: 1, maxError: 1 } : alias ? { maxError: e } : { max_angular_error: e };
        d3.select(el).datum(d).each(f);
        return { fill: el.getAttribute("fill"), stroke: el.getAttribute("stroke") };
      });
    },
  };
};
