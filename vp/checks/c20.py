"""C20: interactive notebook plots receive exactly the data they were given."""
from ..core import Check, Skip, expect
from .. import env, gens as g, node
from ..gens import np, st
import importlib
from collections import UserList, deque
from collections.abc import Sequence
import json
import math
import os
import re
import tempfile
from html.parser import HTMLParser

from attitude import Orientation, ReconstructedPlane
from attitude.orientation.grouped import GroupedOrientation
import attitude.display.nbextension as nb

check = Check("C20", rule=(
    "Histories of one to four notebook plots (fits, grouped fits, reconstructed planes, ready-made mappings; single objects, lists, "
    "tuples; hostile strings as names, colors, identifiers) displayed in one page through IPython; the page is split the way an HTML parser "
    "does it and its scripts are run in node against a stub page. Non-trivial: a string with markup, quotes or template text, or more than one plot."),
    assumptions=["the plotting function itself and the page are stand-ins that record how they are called",
                 "mappings hold JSON values; no key is '__proto__' and strings are valid Unicode"])

EMPTY = os.path.join(node.JS, "shims", "empty.js")
_shell = []


def displayed(fn, broken=False):
    """Run fn as a notebook would and return what was displayed (mime bundles)."""
    from IPython.core.interactiveshell import InteractiveShell
    from IPython.core.displaypub import CapturingDisplayPublisher
    if not _shell:
        os.environ["IPYTHONDIR"] = tempfile.mkdtemp(dir=os.environ.get("VERIF_SCRATCH"))
        from traitlets.config import Config
        c = Config()
        c.HistoryManager.enabled = False
        c.HistoryManager.hist_file = ":memory:"
        _shell.append(InteractiveShell.instance(config=c))
    sh = _shell[0]
    old = sh.display_pub
    sh.display_pub = CapturingDisplayPublisher(parent=sh)
    if broken:
        def publish(*a, **k):
            raise BrokenPipeError("no front end")
        sh.display_pub.publish = publish
    try:
        fn()
        return [o["data"] for o in sh.display_pub.outputs]
    finally:
        sh.display_pub = old


class Ids(HTMLParser):
    def __init__(self):
        super().__init__()
        self.ids = []

    def handle_starttag(self, tag, attrs):
        self.ids += [v for k, v in attrs if k == "id"]


def script_end(s):
    """Index at which script content s ends, per the HTML tokenizer."""
    state = "data"
    i = 0
    while i < len(s):
        if state != "double" and re.match(r"</script[\t\n\f\r />]", s[i:i + 9], re.I):
            return i
        if state == "data" and s.startswith("<!--", i):
            state, i = "escaped", i + 2       # the dashes may also close it
            continue
        if state != "data" and s.startswith("-->", i):
            state, i = "data", i + 3
            continue
        if state == "escaped" and re.match(r"<script[\t\n\f\r />]", s[i:i + 8], re.I):
            state = "double"
        elif state == "double" and re.match(r"</script[\t\n\f\r />]", s[i:i + 9], re.I):
            state, i = "escaped", i + 8
            continue
        i += 1
    return None


def split(html):
    """(ids, scripts) of a piece of HTML."""
    outside, scripts = "", []
    while True:
        m = re.search(r"<script(\s[^>]*)?>", html, re.I)
        if not m:
            outside += html
            break
        outside += html[:m.start()]
        html = html[m.end():]
        e = script_end(html)
        expect(e is not None, "script element is never closed")
        scripts.append(html[:e])
        html = re.sub(r"^</script[^>]*>", "", html[e:], flags=re.I)
    p = Ids()
    p.feed(outside)
    p.close()
    return p.ids, scripts, outside


hostile = st.sampled_from(["</script>", "<script>alert(1)</script>", "<!-- <script>", "-->", "it's", 'say "hi"', "back\\slash", "\\u003c", "line\nbreak",
                           "\u2028\u2029", "<<<hash>>>", "<<<data>>>", "a__<<<hash>>>", "JSON.parse('')", "Schmidt & Söhne", "日本", "🗻", "\x00", "\t", "`${x}`",
                           "';attitudeUI(1);'", "*/", "//", "{{x}}", "%s", "{0}", "NaN", ""])
text = st.one_of(hostile, st.text(st.characters(exclude_categories=("Cs",)), max_size=12), st.tuples(hostile, hostile).map("".join))
finite = st.one_of(st.floats(-1e6, 1e6), st.floats(allow_nan=False, allow_infinity=False), st.integers(-2 ** 53, 2 ** 53))
leaf = st.one_of(st.none(), st.booleans(), finite, text)
value = st.recursive(leaf, lambda x: st.one_of(st.lists(x, max_size=4), st.dictionaries(text.filter(lambda k: k != "__proto__"), x, max_size=4)), max_leaves=8)
mapping = st.dictionaries(st.one_of(st.sampled_from(["strike", "dip", "name", "uid", "axes"]), text.filter(lambda k: k != "__proto__")), value, max_size=5)
cloud = st.fixed_dictionaries(dict(kind=st.just("fit"), seed=st.integers(0, 10 ** 6), n=g.mostly(st.integers(3, 12), st.integers(13, 400)), name=st.one_of(st.none(), text), color=st.one_of(st.none(), text),
                                   dip=g.dips, strike=g.strikes))
recon = st.fixed_dictionaries(dict(kind=st.just("plane"), strike=g.strikes, dip=g.dips, rake=g.inplane, e=st.floats(0.1, 20), f=st.floats(0.1, 80), color=st.one_of(st.none(), text)))
item = st.one_of(cloud, recon, mapping.map(lambda m: dict(kind="map", map=m)),
                 st.fixed_dictionaries(dict(kind=st.just("group"), members=st.lists(cloud, min_size=2, max_size=3))))
plot = st.one_of(st.fixed_dictionaries(dict(how=st.just("single"), items=st.lists(item, min_size=1, max_size=1))),
                 st.fixed_dictionaries(dict(how=st.sampled_from(["list", "list", "tuple", "deque", "userlist", "sequence"]), items=g.mostly(st.lists(item, min_size=0, max_size=4), st.lists(item, min_size=5, max_size=20)))))


class Seq(Sequence):
    def __init__(self, x):
        self.x = tuple(x)

    def __len__(self):
        return len(self.x)

    def __getitem__(self, i):
        return self.x[i]


SEQ = dict(list=list, tuple=tuple, deque=deque, userlist=UserList, sequence=Seq)


def fit(c):
    r = np.random.RandomState(c["seed"])
    P = r.randn(c["n"], 3).dot(np.diag([30.0, 10.0, 0.5])).dot(g.plane_frame(c["strike"], c["dip"], 20.0))
    kw = {k: c[k] for k in ("name", "color") if c[k] is not None}
    o = Orientation(P + r.randn(3) * 100)
    for k, v in kw.items():
        setattr(o, k, v)
    return o


def make(c):
    if c["kind"] == "fit":
        return fit(c)
    if c["kind"] == "plane":
        p = ReconstructedPlane(c["strike"], c["dip"], c["rake"], c["e"], c["f"])
        if c["color"] is not None:
            p.color = c["color"]
        return p
    if c["kind"] == "map":
        return c["map"]
    m = [fit(x) for x in c["members"]]
    return GroupedOrientation(*m)


def same(a, b, path="data"):
    """a: what the page received, b: what was plotted."""
    if isinstance(b, bool) or b is None or isinstance(b, str):
        expect(type(a) is type(b) and a == b, "{}: page got {!r}, plotted {!r}", path, a, b)
    elif isinstance(b, (int, float)):
        if isinstance(b, float) and not math.isfinite(b):
            expect(a == "#" + {math.inf: "Infinity", -math.inf: "-Infinity"}.get(b, "NaN"), "{}: page got {!r}, plotted {!r}", path, a, b)
            return
        expect(isinstance(a, (int, float)) and not isinstance(a, bool), "{}: page got {!r}, plotted {!r}", path, a, b)
        expect(abs(a - b) <= 1e-12 * abs(b) + 1e-300, "{}: page got {!r}, plotted {!r}", path, a, b)
    elif isinstance(b, (list, tuple)):
        expect(isinstance(a, list) and len(a) == len(b), "{}: page got {!r}, plotted {!r}", path, a, b)
        for i, (x, y) in enumerate(zip(a, b)):
            same(x, y, "%s[%d]" % (path, i))
    elif isinstance(b, dict):
        expect(isinstance(a, dict) and set(a) == {str(k) for k in b}, "{}: page got keys {}, plotted {}", path, sorted(a) if isinstance(a, dict) else a, sorted(b))
        for k in b:
            same(a[k], b[k], "%s.%s" % (path, k))
    else:
        expect(False, "{}: cannot be compared: {!r}", path, b)




@check.law(st.fixed_dictionaries(dict(plots=st.lists(plot, min_size=1, max_size=4))), quick=4000, thorough=60000)
def plots_in_a_page(case):
    js = node.connect(EMPTY, "nb_ops.js")
    ids, scripts, expected = [], [], []
    for p in case["plots"]:
        objs = [make(c) for c in p["items"]]
        arg = objs[0] if p["how"] == "single" else SEQ[p["how"]](objs)
        want = [o if isinstance(o, dict) else json.loads(json.dumps(o.to_mapping())) for o in objs]
        out = displayed(lambda: nb.plot_interactive(arg))
        expect(len(out) == 1 and "text/html" in out[0], "a plot displays {} objects", len(out))
        i, s, outside = split(out[0]["text/html"])
        expect("<<<" not in outside, "template text is left in the page: {}", outside)
        expect(len(i) == len(set(i)) and len(i) >= 1, "no element for the plot: {}", outside)
        expect(not set(i) & {k for x in ids for k in x}, "two plots share the element id {}", i)
        ids.append(i)
        scripts.append(s)
        expected.append(want)
        if p["how"] != "single":
            expect(len(arg) == len(objs) and all(x is y for x, y in zip(arg, objs)), "the plotted sequence was changed")
    # all of them in one page, in order
    calls = js.call("page", scripts=[x for s in scripts for x in s], ids=[k for x in ids for k in x])
    expect(calls["errors"] == [], "script fails: {}", calls["errors"])
    expect(len(calls["calls"]) == len(case["plots"]), "{} plots are drawn by {} calls", len(case["plots"]), len(calls["calls"]))
    for k, c in enumerate(calls["calls"]):
        expect(c["element"] in ids[k], "plot {} is drawn in element {} of {}", k, c["element"], ids)
        same(c["data"], expected[k])
    expect(calls["leaks"] == [], "the data ran as code: {}", calls["leaks"])
    kinds = sorted({c["kind"] for p in case["plots"] for c in p["items"]})
    bad = any(x in json.dumps(case["plots"]) for x in ("<", "'", "\\", "alert"))
    return kinds + ["%d plots" % len(case["plots"])] + (["hostile"] if bad else []), bad or len(case["plots"]) > 1


@check.law(st.fixed_dictionaries(dict(calls=st.lists(st.sampled_from(["init", "init", "plot", "broken"]), min_size=1, max_size=6))), quick=400, thorough=4000)
def library_loaded_once(case):
    mod = importlib.reload(nb)
    lib = os.path.join(os.path.dirname(mod.__file__), "lib", "attitude-ui.js")
    with open(lib) as f:
        source = f.read()
    expect(len(source) > 10000, "the notebook library is empty")
    loads = 0
    inits = 0
    for c in case["calls"]:
        if c == "broken":
            # a front end that cannot take the script: the attempt does not count
            try:
                displayed(mod.init_notebook_mode, broken=True)
            except BrokenPipeError:
                pass
            continue
        if c == "init":
            out = displayed(mod.init_notebook_mode)
            inits += 1
        else:
            out = displayed(lambda: mod.plot_interactive([]))
        js = [o for o in out if "application/javascript" in o]
        expect(c == "init" or not js, "a plot loads the library")
        loads += len(js)
        for o in js:
            expect(source.strip() in o["application/javascript"], "the displayed script is not the notebook library ({} characters)", len(o["application/javascript"]))
        expect(loads == (1 if inits else 0), "library loaded {} times after {} calls", loads, inits)
    return ["%d inits" % min(inits, 3)], inits > 1
