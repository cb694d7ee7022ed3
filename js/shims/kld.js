// kld-intersections / kld-path-parser: paths made of M, L and Z cut by a straight segment.
class PathParser {
  setHandler(h) { this.handler = h; }
  parseData(d) {
    if (d === null || d === undefined) throw new TypeError("pathData is null or undefined");
    const re = /([MLZ])([^MLZ]*)/g;
    let m, at = null, start = null;
    while ((m = re.exec(d))) {
      const n = (m[2].match(/-?\d+(\.\d+)?(e-?\d+)?/g) || []).map(Number);
      if (m[1] === "M") { at = start = [n[0], n[1]]; }
      else { const to = m[1] === "Z" ? start : [n[0], n[1]]; this.handler.shapes.push([at, to]); at = to; }
    }
  }
}
class PathHandler { constructor() { this.shapes = []; } }
const Shapes = { line: (x1, y1, x2, y2) => [[[x1, y1], [x2, y2]]], path: (s) => s };
const Intersection = {
  intersect(a, b) {
    const points = [];
    for (const [p, q] of a) for (const [r, s] of b) {
      const u = [q[0] - p[0], q[1] - p[1]], v = [s[0] - r[0], s[1] - r[1]];
      const det = u[0] * v[1] - u[1] * v[0];
      if (det === 0) continue;
      const w = [r[0] - p[0], r[1] - p[1]];
      const t = (w[0] * v[1] - w[1] * v[0]) / det, k = (w[0] * u[1] - w[1] * u[0]) / det;
      if (t >= 0 && t <= 1 && k >= 0 && k <= 1) points.push({ x: p[0] + t * u[0], y: p[1] + t * u[1] });
    }
    return { status: points.length ? "Intersection" : "No Intersection", points };
  },
};
module.exports = PathHandler;
Object.assign(module.exports, { PathParser, PathHandler, Shapes, Intersection, default: PathHandler });
