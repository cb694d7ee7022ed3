module.exports = function (map) { for (const k in map) this.property(k, map[k]); return this; };
