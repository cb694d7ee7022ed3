// immutability-helper: $set (and $merge/$push) on copies
module.exports = function update(obj, spec) {
  if ("$set" in spec) return spec.$set;
  const out = Array.isArray(obj) ? obj.slice() : { ...obj };
  for (const k of Object.keys(spec)) {
    if (k === "$merge") Object.assign(out, spec.$merge);
    else if (k === "$push") out.push(...spec.$push);
    else out[k] = update(out[k], spec[k]);
  }
  return out;
};
module.exports.default = module.exports;
