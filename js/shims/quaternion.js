// The part of quaternion.js the sources use.
function Q(w, x, y, z) { if (!(this instanceof Q)) return new Q(w, x, y, z); this.w = w; this.x = x; this.y = y; this.z = z; }
Q.fromAxisAngle = (v, a) => { const n = Math.hypot(...v), s = Math.sin(a / 2) / n; return new Q(Math.cos(a / 2), v[0] * s, v[1] * s, v[2] * s); };
Q.prototype.toMatrix = function (twoD) {
  const { w, x, y, z } = this;
  const m = [
    [1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
    [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
    [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]];
  return twoD ? m : m.flat();
};
Q.prototype.mul = function (q) {
  const p = this;
  return new Q(p.w * q.w - p.x * q.x - p.y * q.y - p.z * q.z, p.w * q.x + p.x * q.w + p.y * q.z - p.z * q.y,
    p.w * q.y - p.x * q.z + p.y * q.w + p.z * q.x, p.w * q.z + p.x * q.y - p.y * q.x + p.z * q.w);
};
module.exports = Q;
