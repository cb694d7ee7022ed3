// Operations of the checks on the core package. `core` is the bundle.
module.exports = (core) => {
  const { math, functions, util, hyperbola, reconstruct, d3 } = core;

  const { makeDocument, El, tree } = require("./dom.js");
  const makeNode = (tag) => new El(tag, makeDocument());
  const scale = ([d0, d1, r0, r1]) => d3.scaleLinear().domain([d0, d1]).range([r0, r1]);

  return {
    planeErrors: ({ hyp, axes, opts }) => math.planeErrors(hyp, axes, opts),
    normalErrors: ({ hyp, axes, opts }) => math.normalErrors(hyp, axes, opts),
    combinedErrors: ({ hyp, axes, opts }) => math.combinedErrors(hyp, axes, opts),
    convolve: ({ axes, sv }) => math.convolveAxes(axes, sv),
    deconvolve: ({ axes }) => math.deconvolveAxes(axes),
    basics: ({ v, m, opts }) => ({ norm: math.norm(v), sph: math.cart2sph(opts)(v), t: math.transpose(m) }),
    surface: ({ hyp, axes, opts, probes }) => {
      const e = math.combinedErrors(hyp, axes, opts);
      const copy = JSON.parse(JSON.stringify(e));
      const f = functions.errorSurface(e, { id: 7 });
      const line = functions.nominalPlane(copy, { id: 8 });
      const bare = functions.nominalPlane(JSON.parse(JSON.stringify(copy)));
      return { rings: copy, feature: f, area: d3.geoArea(f), line, bare,
        nominalIn: copy.nominal.map((p) => d3.geoContains(f, p)), probesIn: probes.map((p) => d3.geoContains(f, p)) };
    },
    ellipses: ({ props, opts, probes }) => {
      const fn = functions.errorEllipse(opts);
      const one = (g) => {
        const p = JSON.parse(JSON.stringify(props));
        const f = g(p);
        return { feature: f, area: d3.geoArea(f), probesIn: probes.map((q) => d3.geoContains(f, q)), again: g(JSON.parse(JSON.stringify(props))) };
      };
      return Array.isArray(fn) ? { many: fn.map(one) } : { one: one(fn) };
    },
    grouped: ({ props, opts }) => {
      const el = makeNode("g");
      functions.plane(opts).call(el, props);
      return el.children.map((c) => ({ tag: c.tagName, cls: c.attributes.class || "", datum: c.__data__ }));
    },
    reconstruct: (o) => reconstruct.reconstructErrors(o),
    planeData: ({ data, mean, azimuths }) => {
      const p = mean ? new hyperbola.PlaneData(data, mean) : new hyperbola.PlaneData(data);
      const { dip, apparentDip } = p;   // bound methods
      return { mean: p.mean, centered: p.centered, array: p.array, lengths: p.lengths, axes: p.axes, color: p.color, inGroup: p.inGroup, dip: dip(), apparent: azimuths.map(apparentDip) };
    },
    fixAngle: ({ a }) => a.map(hyperbola.fixAngle),
    centroids: ({ planes }) => {
      const p = planes.map((d) => ({ data: d }));
      return { average: util.computeCentroidAverage(p), extrema: util.computeCentroidExtrema(p) };
    },
    clone: ({ obj, more }) => { const k = JSON.stringify(obj); const c = util.cloneOptions(obj, more); return { c, same: JSON.stringify(obj) === k, own: c !== obj }; },
    transform: ({ data, offset, group, viewpoint, x, y, ratio }) => {
      const d = new hyperbola.PlaneData(data);
      d.offset = offset;
      if (group) { d.group = new hyperbola.PlaneData(group); d.group.offset = offset; }
      const X = scale(x), Y = scale(y);
      const f = ratio == null ? hyperbola.createTransform(viewpoint, X, Y) : hyperbola.createTransform(viewpoint, X, Y, ratio);
      return f(d);
    },
    section: ({ datas, viewpoint, x, y, width, exaggerate, nominal, twice, before }) => {
      const f = hyperbola.hyperbolicErrors(viewpoint, [[1, 0, 0], [0, 1, 0], [0, 0, 1]], scale(x), scale(y));
      const items = datas.map(({ data, offset }) => {
        const d = new hyperbola.PlaneData(data);
        if (offset) d.offset = offset;
        const el = makeNode("g");
        d3.select(el).datum(d);
        return [d, el];
      });
      // drawn with other settings first
      for (const b of before || []) {
        f.width(b.width);
        f.scaleErrorAngles(b.exaggerate);
        for (const [d, el] of items) f.call(el, d);
      }
      if (before && before.length) f.width(400).scaleErrorAngles(true);
      if (width != null) f.width(width);
      if (exaggerate != null) f.scaleErrorAngles(exaggerate);
      if (nominal != null) f.nominal(nominal);
      return items.map(([d, el]) => {
        f.call(el, d);
        if (twice) f.call(el, d);
        return { tree: tree(el), z: d.__z, settings: [f.width(), f.scaleErrorAngles(), f.nominal()] };
      });
    },
    apparent: ({ data, group, offset, tag, viewpoint, x, y, width }) => {
      const d = new hyperbola.PlaneData(data);
      d.offset = offset;
      if (group) { d.group = new hyperbola.PlaneData(group); d.group.offset = offset; }
      const f = hyperbola.apparentDip(viewpoint, scale(x), scale(y));
      if (width != null) f.width(width);
      const el = makeNode(tag);
      f.call(el, d);
      const t = hyperbola.createTransform(viewpoint, scale(x), scale(y))(d);
      return { attrs: { ...el.attributes }, width: f.width(), transform: t };
    },
    digitized: ({ centered, offset, viewpoint, axes }) => {
      let got = null;
      const f = hyperbola.digitizedLine(viewpoint, (pts) => { got = pts; return "M"; });
      if (axes) f.axes(axes);
      const el = makeNode("path");
      f.call(el, { centered, offset });
      return { pts: got, d: el.attributes.d };
    },
  };
};
