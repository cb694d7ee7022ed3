// Runs the scripts of a notebook page against a stub document.
const vm = require("vm");
module.exports = () => ({
  page: ({ scripts, ids }) => {
    const elements = new Map(ids.map((id) => [id, { id }]));
    const find = (s) => {
      s = String(s).trim();
      let m = s.match(/^(?:div)?#((?:[A-Za-z_]|[^\x00-\x7f])(?:[-\w]|[^\x00-\x7f])*)$/) || s.match(/^(?:div)?\[id=(["'])(.*)\1\]$/);
      if (!m) throw new Error("not a selector of an element by id: " + s);
      return elements.get(m[m.length - 1]) || null;
    };
    const calls = [], errors = [], leaks = [];
    const document = { querySelector: find, getElementById: (i) => elements.get(i) || null };
    const box = { document, alert: (x) => leaks.push(String(x)), console: { log() {} } };
    box.attitudeUI = (el, data) => calls.push({ element: el && el.id, data: JSON.parse(JSON.stringify(data, (k, v) => (typeof v === "number" && !Number.isFinite(v) ? "#" + v : v))) });
    box.window = box; box.globalThis = box; box.self = box;
    const ctx = vm.createContext(box);
    for (const s of scripts) {
      try { vm.runInContext(s, ctx, { timeout: 5000 }); } catch (e) { errors.push(String(e)); }
    }
    return { calls, errors, leaks };
  },
});
