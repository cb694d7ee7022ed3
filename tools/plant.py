#!/usr/bin/env python3
"""Plant bugs: `plant.py SPEC.py [ID...]`.

SPEC.py defines SEEDS = [dict(id, prop, edits=[(file, old, new), ...], demo, needs, breaks)].
For each: edit /repo, build + stable tests, demonstration (must fail), the
property's quick check (caught or missed), undo, demonstration (must pass); and
write /verif/seeded/<id>/.  Demonstrations ending in JS set demo_js instead of demo.
"""
import json, os, runpy, subprocess, sys

REPO = "/repo"
OUT = "/verif/seeded"
SH = '''#!/bin/bash
# cwd: /repo
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1
scratch=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf -- "$scratch"' EXIT
export MPLCONFIGDIR="$scratch" SCRATCH="$scratch"
%s
'''
JSLIB = '''// Bundles frontend sources of the current directory with the libraries vendored there.
import {createRequire} from "module"; import path from "path";
const require = createRequire("/opt/veriftools/node/");
const esbuild = require("/opt/veriftools/node/node_modules/esbuild");
const lib = path.resolve("frontend/packages/attitude/lib");
export async function load(file){
  const outfile = path.join(process.env.SCRATCH, "b.cjs");
  const stub = path.join(process.env.SCRATCH, "stub.js");
  require("fs").writeFileSync(stub, `
    class Q {
      constructor(w,x,y,z){Object.assign(this,{w,x,y,z})}
      static fromAxisAngle(v,a){const s=Math.sin(a/2);return new Q(Math.cos(a/2),v[0]*s,v[1]*s,v[2]*s)}
      toMatrix(){const {w,x,y,z}=this;return [[1-2*(y*y+z*z),2*(x*y-w*z),2*(x*z+w*y)],[2*(x*y+w*z),1-2*(x*x+z*z),2*(y*z-w*x)],[2*(x*z-w*y),2*(y*z+w*x),1-2*(x*x+y*y)]]}
    }
    Q.zip = (...a) => a[0].map((_, i) => a.map(r => r[i]));
    Q.default = Q; Q.v4 = () => "id";
    module.exports = Q;`);
  await esbuild.build({entryPoints:[path.resolve(file)], bundle:true, platform:"node", format:"cjs", outfile, logLevel:"error",
    plugins:[{name:"o", setup(b){
      b.onResolve({filter:/\\.(styl|css)$/},()=>({path:stub}));
      b.onResolve({filter:/^[^./]/},a=>{
        if(a.kind==="entry-point"||path.isAbsolute(a.path)) return;
        if(/^d3(-|$)/.test(a.path)&&!/jetpack|multi|fetch/.test(a.path)) return {path:path.join(lib,"d3v4+jetpack.js")};
        if(a.path==="mathjs") return {path:path.join(lib,"math.js")};
        return {path:stub};
      });}}]});
  return require(outfile);
}
'''

APPLIB = '''// Bundles the sources of the current directory with stand-ins for what is not installed.
import {createRequire} from "module"; import path from "path"; import {execFileSync} from "child_process";
const require = createRequire(import.meta.url);
const here = path.dirname(new URL(import.meta.url).pathname);
console.log = () => {};
export const fail = (...a) => { console.error("BROKEN", ...a.map(x => JSON.stringify(x))); process.exit(1); };
export function load(entry, ops){
  const out = path.join(process.env.SCRATCH, "b.cjs");
  execFileSync("node", [path.join(here, "js/build.mjs"), process.cwd(), out, path.join(here, "js", entry + "_entry.js")]);
  const b = require(out);
  return {...b, ops: ops ? require(path.join(here, "js", ops))(b) : null};
}
'''

def run(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)

def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    want = set(sys.argv[2:])
    rows = []
    assert not run(["git", "-C", REPO, "status", "--porcelain"]).stdout.strip(), "repo dirty"
    for s in seeds:
        if want and s["id"] not in want:
            continue
        d = os.path.join(OUT, s["id"])
        os.makedirs(d, exist_ok=True)
        try:
            for f, old, new in s["edits"]:
                p = os.path.join(REPO, f)
                t = open(p).read()
                assert t.count(old) == 1, (s["id"], f, t.count(old))
                open(p, "w").write(t.replace(old, new))
            diff = run(["git", "-C", REPO, "diff"]).stdout
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]),
                      open(os.path.join(d, "meta.json"), "w"), indent=1)
            if "demo_app" in s:
                import shutil
                shutil.rmtree(os.path.join(d, "js"), ignore_errors=True)
                shutil.copytree("/verif/js", os.path.join(d, "js"))
                open(os.path.join(d, "lib.mjs"), "w").write(APPLIB)
                open(os.path.join(d, "demo.mjs"), "w").write('import {load, fail} from "./lib.mjs";\n' + s["demo_app"].lstrip())
                open(os.path.join(d, "demo.sh"), "w").write(SH % 'node "$here/demo.mjs"')
            elif "demo_js" in s:
                open(os.path.join(d, "lib.mjs"), "w").write(JSLIB)
                open(os.path.join(d, "demo.mjs"), "w").write('import {load} from "./lib.mjs";\n' + s["demo_js"].lstrip())
                open(os.path.join(d, "demo.sh"), "w").write(SH % 'node "$here/demo.mjs"')
            else:
                open(os.path.join(d, "demo.py"), "w").write(s["demo"].lstrip())
                open(os.path.join(d, "demo.sh"), "w").write(SH % '/opt/venv/bin/python -W ignore "$here/demo.py"')
            t = run(["bash", "/tmp/t.sh"]).stdout
            okt = "missing []" in t and "BUILDFAIL" not in t
            demo_bad = run(["bash", os.path.join(d, "demo.sh")], cwd=REPO)
            c = run(["./check", s["prop"]], cwd="/verif")
            caught = c.returncode == 1 and "VIOLATION property=%s " % s["prop"] in c.stdout
        finally:
            run(["git", "-C", REPO, "checkout", "--", "."])
        demo_ok = run(["bash", os.path.join(d, "demo.sh")], cwd=REPO)
        good = okt and demo_bad.returncode and not demo_ok.returncode
        line = "%-28s %s %s %s" % (s["id"], s["prop"], "valid" if good else "INVALID", "caught" if caught else "MISSED rc=%d" % c.returncode)
        print(line, flush=True)
        if not okt: print("   tests:", t[:400])
        if not demo_bad.returncode: print("   demo passes with the bug", demo_bad.stdout[-300:])
        if demo_ok.returncode: print("   demo fails on the clean tree", demo_ok.stdout[-500:], demo_ok.stderr[-500:])
        if caught:
            laws = [l.strip()[:230] for l in c.stdout.splitlines() if l.startswith("  law")]
            print("     " + "\n     ".join(laws))
        elif c.returncode not in (0, 1): print(c.stderr[-600:])
    assert not run(["git", "-C", REPO, "status", "--porcelain"]).stdout.strip()
main()
