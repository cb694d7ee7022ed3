// The npm package `attitude` is not vendored. Unit quaternions [w, x, y, z];
// axes are [longitude, latitude], angles in degrees; the matrix has the images
// of the coordinate axes as its rows.
const r = Math.PI / 180;
const versor_fromAxisAngle = ([lon, lat], g) => { const s = Math.sin((g * r) / 2); return [Math.cos((g * r) / 2), s * Math.cos(lat * r) * Math.cos(lon * r), s * Math.cos(lat * r) * Math.sin(lon * r), s * Math.sin(lat * r)]; };
const versor_multiply = ([a, b, c, d], [e, f, g, h]) => [a * e - b * f - c * g - d * h, a * f + b * e + c * h - d * g, a * g - b * h + c * e + d * f, a * h + b * g - c * f + d * e];
const versor_toRotationMatrix = ([w, x, y, z]) => [
  [1 - 2 * (y * y + z * z), 2 * (x * y + w * z), 2 * (x * z - w * y)],
  [2 * (x * y - w * z), 1 - 2 * (x * x + z * z), 2 * (y * z + w * x)],
  [2 * (x * z + w * y), 2 * (y * z - w * x), 1 - 2 * (x * x + y * y)]];
module.exports = { versor_toRotationMatrix, versor_fromAxisAngle, versor_multiply };
