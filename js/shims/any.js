// Stand-in for a module that is not available offline: any property is a
// callable that returns itself.
const make = () => {
  const f = function () { return f; };
  return new Proxy(f, { get: (t, k) => (k === "prototype" ? {} : k === Symbol.toPrimitive ? () => "" : k === "__esModule" ? false : f) });
};
module.exports = make();
