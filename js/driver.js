// usage: node driver.js BUNDLE OPS.js ; one JSON request per line on stdin
const core = require(process.argv[2]);
const ops = require(process.argv[3])(core);
const write = process.stdout.write.bind(process.stdout);
console.log = () => {};
const enc = (k, v) => (typeof v === "number" && !Number.isFinite(v) ? "#" + v : v);
require("readline").createInterface({ input: process.stdin }).on("line", (line) => {
  let out;
  try {
    const { op, args } = JSON.parse(line);
    out = { value: ops[op](args) ?? null };
  } catch (e) {
    out = { error: String((e && e.stack) || e).slice(0, 1000) };
  }
  write(JSON.stringify(out, enc) + "\n");
});
