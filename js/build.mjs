// Bundles the frontend sources of /repo's working tree for node.
// usage: node build.mjs REPO OUTFILE ENTRY.js
import { createRequire } from "module";
import path from "path";
import fs from "fs";
const require = createRequire("/opt/veriftools/node/");
const esbuild = require("/opt/veriftools/node/node_modules/esbuild");
const [repo, outfile, entry] = process.argv.slice(2);
const here = path.dirname(new URL(import.meta.url).pathname);
const lib = path.join(repo, "frontend/packages/attitude/lib");
const shims = path.join(here, "shims");

// Third-party modules: the copies vendored in the repository where there are
// any, small stand-ins otherwise.
const vendored = [
  [/^d3$/, path.join(lib, "d3v4+jetpack.js")],
  [/^d3-(array|shape|scale|geo|selection|format|transition|dispatch|axis|color|interpolate|path|ease|collection|request|timer|time|time-format)$/, path.join(lib, "d3v4+jetpack.js")],
  [/^mathjs$/, path.join(lib, "math.js")],
  [/^d3-selection-multi\/src\/(selection|transition)\/attrs$/, path.join(shims, "sel/attrs.js")],
  [/^d3-selection-multi\/src\/(selection|transition)\/styles$/, path.join(shims, "sel/styles.js")],
  [/^d3-selection-multi\/src\/selection\/properties$/, path.join(shims, "sel/properties.js")],
  [/^d3-jetpack\/src\/selectAppend$/, path.join(shims, "sel/selectAppend.js")],
  [/^underscore$|^lodash$/, path.join(shims, "underscore.js")],
  [/^quaternion$/, path.join(shims, "quaternion.js")],
  [/^uuid$/, path.join(shims, "uuid.js")],
  [/^kld-(intersections|path-parser)(\/.*)?$/, path.join(shims, "kld.js")],
  [/^chroma-js$/, path.join(shims, "chroma.js")],
  [/^react$/, path.join(shims, "react.js")],
  [/^react-dom$/, path.join(shims, "react-dom.js")],
  [/^@blueprintjs\/\w+$/, path.join(shims, "blueprint.js")],
  [/^react-copy-to-clipboard$/, path.join(shims, "copy.js")],
  [/^react-datasheet$/, path.join(shims, "datasheet.js")],
  [/^classnames$/, path.join(shims, "classnames.js")],
  [/^@macrostrat\/hyper$|^react-hyperscript$/, path.join(shims, "hyper.js")],
  [/^@macrostrat\/ui-components$/, path.join(shims, "ui.js")],
  [/^immutability-helper$/, path.join(shims, "update.js")],
  [/^attitude\/src\/(matrix|versor)$/, path.join(shims, "versor.js")],
  [/^@attitude\/core\/src\/(.*)$/, null],
];
const plugin = {
  name: "offline",
  setup(b) {
    b.onResolve({ filter: /\.(styl|css)$/ }, () => ({ path: path.join(shims, "empty.js") }));
    b.onResolve({ filter: /^@attitude\// }, (a) => {
      const m = a.path.match(/^@attitude\/(core|notebook-ui|plots|webapp)(?:\/src)?(?:\/(.*))?$/);
      const dir = path.join(repo, "frontend/packages", m[1] === "core" ? "attitude" : m[1], "src");
      const p = path.join(dir, m[2] || "index");
      return { path: fs.existsSync(p + ".ts") ? p + ".ts" : p };
    });
    b.onResolve({ filter: /^[^./]/ }, (a) => {
      if (a.kind === "entry-point" || path.isAbsolute(a.path)) return undefined;
      for (const [re, p] of vendored) if (p && re.test(a.path)) return { path: p };
      return { path: path.join(shims, "any.js") };
    });
  },
};
await esbuild.build({
  entryPoints: [entry], bundle: true, platform: "node", format: "cjs", outfile, plugins: [plugin], logLevel: "error",
  resolveExtensions: [".ts", ".tsx", ".js"], define: { "REPO_FRONTEND": JSON.stringify(path.join(repo, "frontend/packages")) },
  alias: {}, loader: { ".ts": "ts" }, nodePaths: [],
});
