// Enough of chroma-js: validates colours and carries alpha/darken along.
const names = new Set(["red", "green", "blue", "black", "white", "gray", "dodgerblue", "purple", "orange", "transparent"]);
function color(c, alpha = 1, ops = "") {
  return { alpha: (a) => (a === undefined ? alpha : color(c, a, ops)), darken: (k = 1) => color(c, alpha, ops + "-" + k), brighten: (k = 1) => color(c, alpha, ops + "+" + k),
    css: () => `${c}${ops}@${alpha}`, hex: () => c, name: () => c };
}
const chroma = (c) => {
  if (typeof c !== "string" || !(names.has(c) || /^#([0-9a-f]{3}|[0-9a-f]{6})$/i.test(c))) throw new Error("unknown color: " + c);
  return color(c);
};
chroma.valid = (c) => { try { chroma(c); return true; } catch (e) { return false; } };
module.exports = chroma;
