const zip = (...a) => (a.length ? Array.from({ length: Math.max(...a.map((x) => x.length)) }, (_, i) => a.map((x) => x[i])) : []);
const range = (a, b, s = 1) => { if (b == null) { b = a; a = 0; } const r = []; for (let i = a; s > 0 ? i < b : i > b; i += s) r.push(i); return r; };
const _ = {
  zip, unzip: (a) => zip(...a), range,
  map: (a, f) => Array.from(a, f), each: (a, f) => a.forEach(f), forEach: (a, f) => a.forEach(f), reduce: (a, f, i) => a.reduce(f, i), filter: (a, f) => a.filter(f),
  find: (a, f) => a.find(f), some: (a, f) => a.some(f), every: (a, f) => a.every(f), first: (a) => a[0], last: (a) => a[a.length - 1],
  flatten: (a) => a.flat(Infinity), extend: Object.assign, assign: Object.assign, clone: (o) => (Array.isArray(o) ? o.slice() : { ...o }), defaults: (o, ...d) => Object.assign({}, ...d.reverse(), o),
  min: (a) => Math.min(...a), max: (a) => Math.max(...a), isArray: Array.isArray, identity: (x) => x, times: (n, f) => range(n).map(f), keys: Object.keys, values: Object.values,
  cloneDeep: (o) => JSON.parse(JSON.stringify(o)), sum: (a) => a.reduce((x, y) => x + y, 0),
};
module.exports = Object.assign((x) => x, _);
