const cn = (...a) => a.flatMap((x) => (!x ? [] : typeof x === "string" ? [x] : Array.isArray(x) ? [cn(...x)] : Object.keys(x).filter((k) => x[k]))).filter(Boolean).join(" ");
module.exports = cn;
module.exports.default = cn;
