const { createElement, useState } = require("./react.js");
const store = { values: {}, writes: [], validators: {}, listeners: [] };
module.exports = {
  store, ErrorBoundary: (p) => createElement("error-boundary", p),
  useStoredState(key, initial, valid) {
    if (valid) store.validators[key] = valid;
    if (!(key in store.values)) store.values[key] = initial;
    const [, tick] = useState(0);
    const set = (v) => { store.writes.push([key, v]); store.values[key] = v; tick((n) => n + 1); };
    return [store.values[key], set, () => set(initial)];
  },
};
