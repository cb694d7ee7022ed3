"""C26: stereonets show their data in the right place, however they are set up and turned."""
from ..core import Check, Skip, expect
from .. import gens as g, node
from ..gens import np, st
import math
import re

from .c21 import frame
from .c22 import girdle_area, cap_area, halves, hyper

NET = node.bundle("app")

check = Check("C26", rule=(
    "Histories of up to 16 steps on one or two stereonets of a page (sizes, margins, clip angles, centres and graticules set in any order before and after "
    "they are put on the page, planes and poles added, labels, turning, dragging, redrawing), compared after every step with a model of the view; repeated renders of the "
    "ready-made plots. Non-trivial: data are shown and the view changes afterwards."),
    assumptions=["the document is a small stand-in; d3's projections and paths are trusted", "clip angles up to 90 degrees"])


def js(op, **kw):
    return node.connect(NET, "net_ops.js").call(op, **kw)


COLORS = ["red", "green", "blue", "dodgerblue", "#65499e", "#abc"]


@st.composite
def planes(draw, lo=1, hi=4):
    out = []
    for i in range(draw(st.integers(lo, hi))):
        h = draw(halves)
        a = dict(uid="p%d" % i, axes=draw(frame), hyperbolic_axes=hyper(h, draw(g.logfloat(0.01, 1e4))), half=list(h))
        a["max_angular_error"] = draw(st.one_of(st.floats(0.1, 60), st.floats(0, 10)))
        c = draw(st.one_of(st.none(), st.sampled_from(COLORS), st.sampled_from(COLORS)))
        if c or draw(st.booleans()):
            a["color"] = c
        out.append(a)
    return out


lon, lat = st.floats(-180, 180), st.floats(-90, 90)
rotation = st.one_of(st.tuples(lon, lat), st.tuples(lon, lat, st.floats(-180, 180)), st.sampled_from([(0, 0), (0, -90), (0, 90), (90, 0)])).map(list)
setting = st.one_of(
    st.tuples(st.just("size"), st.integers(150, 900).map(lambda v: [v])),
    st.tuples(st.just("clipAngle"), st.one_of(st.integers(1, 90), st.just(90), st.floats(2, 90)).map(lambda v: [v])),
    st.tuples(st.just("center"), st.one_of(rotation.map(lambda v: [v]), st.just(["vertical"]))),
    st.tuples(st.just("graticule"), st.one_of(st.sampled_from([[10, 10], [30, 2.5], [45, 15]]), st.tuples(st.integers(3, 60), st.integers(2, 40)).map(list))),
    st.tuples(st.just("margin"), st.integers(0, 50).map(lambda v: [v]))).map(list)
xy = st.tuples(st.integers(-400, 900), st.integers(-400, 900))


@st.composite
def histories(draw):
    nets = [dict(interactive=draw(st.sampled_from([None, None, True, False])), data=draw(planes())) for _ in range(draw(st.sampled_from([1, 1, 2])))]
    steps = []
    for i in range(len(nets)):
        if draw(st.booleans()):
            steps.append(dict(op="set", net=i, calls=draw(st.lists(st.one_of(setting, setting, st.just(["clip", [False]]), st.just(["clip", [True]])), min_size=1, max_size=5))))
        if draw(st.integers(0, 3)) == 0:
            steps.append(dict(op="labels", net=i))
        steps.append(dict(op="mount", net=i))
    more = []
    for _ in range(draw(st.integers(1, 12))):
        i = draw(st.integers(0, len(nets) - 1))
        op = draw(st.sampled_from(["set", "set", "planes", "poles", "poles", "labels", "horizontal", "vertical", "rotate", "rotate", "drag", "drag"]))
        once = (op, i)
        if op in ("planes", "poles", "labels", "horizontal", "vertical"):
            if once in more:
                op = "rotate"
            elif op == "labels" and any(s["op"] == "labels" and s["net"] == i for s in steps):
                op = "rotate"
            more.append(once)
        if op == "set":
            calls = draw(st.lists(setting, min_size=1, max_size=3))
            if any(c[0] == "margin" for c in calls):
                calls.append(["size", [draw(st.integers(150, 900))]])
            steps += [dict(op="set", net=i, calls=calls), dict(op="draw", net=i)]
        elif op == "rotate":
            steps.append(dict(op=op, net=i, to=draw(rotation)))
        elif op == "drag":
            # a drag, a plain click, a drag released elsewhere, the pointer moving on after it
            for e in draw(st.sampled_from([("down", "move", "up"), ("down", "up", "move"), ("down", "up"), ("move", "down", "up", "move"), ("up", "move"),
                                           ("down", "move", "move", "up", "move"), ("down", "move", "up", "up"), ("down", "move", "down", "up")])):
                a = draw(xy)
                steps.append(dict(op=e, net=i, x=a[0], y=a[1]))
        elif op in ("planes", "poles"):
            o = draw(st.one_of(st.none(), st.sampled_from(COLORS + ["by plane"]).map(lambda c: dict(color=c)), st.just(dict(selector="g.extra"))))
            if op == "poles" and draw(st.integers(0, 2)) == 0:
                o = dict(o or {}, level=draw(st.sampled_from([0.25, 0.5, 1.5, 2, 3])))
            steps.append(dict(op=op, net=i, options=o))
        elif op == "vertical":
            steps.append(dict(op=op, net=i, options=draw(st.one_of(st.none(), st.lists(st.integers(1, 80), min_size=1, max_size=3, unique=True).map(lambda v: dict(dipLabels=v))))))
        elif op == "horizontal":
            steps += [dict(op=op, net=i), dict(op="draw", net=i)]
        else:
            steps.append(dict(op=op, net=i))
    return dict(nets=nets, steps=steps[:22])


class Model:
    def __init__(self, n):
        self.n = n
        self.size, self.margin, self.used, self.clip, self.rot = 300, 20, 20, 90, [0.0, 0.0]
        self.grip, self.shown, self.labels, self.mounted, self.frozen = None, {}, False, False, None
        self.interactive = n["interactive"] is not False
        self.clipping, self.pclip, self.grid, self.drawn_grid, self.horizon = True, 90, (10, 10), None, 0

    def apply(self, s):
        o = s["op"]
        if o == "set":
            for name, args in s["calls"]:
                if name == "margin":
                    self.margin = args[0]
                elif name == "size":
                    self.size, self.used = args[0], self.margin
                elif name == "clipAngle":
                    self.clip, self.used, self.rot = args[0], self.margin, [0.0, -90.0]
                elif name == "clip":
                    self.clipping = args[0]
                elif name == "graticule":
                    self.grid = tuple(args)
                if name in ("size", "clipAngle") and self.clipping:
                    self.pclip = self.clip
                if name == "center":
                    self.rot = [0.0, 90.0] if args[0] == "vertical" else list(args[0])
        elif o == "mount":
            self.mounted, self.used, self.drawn_grid = True, self.margin, self.grid
            if self.clipping:
                self.pclip = self.clip
        elif o == "rotate":
            self.rot = list(s["to"])
        elif o == "down" and self.interactive:
            self.grip = (s["x"], s["y"], list(self.rot))
        elif o in ("planes", "poles"):
            op = s["options"] or {}
            self.shown.setdefault(op.get("selector", "g." + o)[2:], []).append((o, op.get("color"), op.get("level", 1)))
        elif o == "horizontal":
            self.horizon += 1
        elif o == "labels":
            self.labels = True

    def moved(self, s):
        if self.grip and s["op"] in ("move", "up"):
            a = self.grip
            self.frozen = None
            self.rot = [a[2][0] + (s["x"] - a[0]) / 3, max(-90.0, min(90.0, a[2][1] + (a[1] - s["y"]) / 3))]
            if s["op"] == "up":
                self.grip = None

    def scale(self):
        r = self.size / 2 - self.used
        return r / (2 * math.sin(math.radians(self.clip) / 2)) if self.clip < 90 else self.size / 2.5 - self.used

    def view(self):
        return dict(rot=self.rot, scale=self.scale(), translate=[self.size / 2] * 2, clip=self.pclip, size=self.size)


def normal_rotation(r):
    r = list(r) + [0] * (3 - len(r))
    return [(v + 180) % 360 - 180 for v in r]


def part(kind, a, it, color, what, level=1):
    """One drawn plane or normal."""
    ta, tb = (math.tan(math.radians(x)) for x in a["half"])
    h = a["hyperbolic_axes"]
    r = [level * math.sqrt(h[2] / h[0]), level * math.sqrt(h[2] / h[1])]
    err = [p for p in it["paths"] if "error" in p["cls"]]
    nom = [p for p in it["paths"] if "nominal" in p["cls"]]
    expect(it["uid"] == a["uid"] and len(err) + len(nom) == len(it["paths"]), "{}: {} has unknown parts", what, it["uid"])
    if kind == "planes":
        expect(it["kind"] == "plane" and len(nom) == 1 and nom[0]["off"] < 1e-6, "{}: nominal plane of {} is missing or elsewhere", what, it["uid"])
        expect(len(err) == 1 and err[0]["inplane"] and not err[0]["pole"], "{}: error of {} does not follow the plane", what, it["uid"])
        expect(nom[0]["stroke"].split("-")[0].split("@")[0] == color, "{}: nominal plane of color {} is drawn in {}", what, color, nom[0]["stroke"])
    else:
        expect(it["kind"] == "normal" and not nom and len(err) == 1 and err[0]["pole"] and not err[0]["inplane"], "{}: error of {} is not around its pole", what, it["uid"])
    want = girdle_area(*r) if kind == "planes" else 2 * cap_area(*r)
    for e in err:
        expect((0.45 if max(r[0] / r[1], r[1] / r[0]) > 3 else 0.85) * want < e["area"] < 1.12 * want, "{}: error of {} covers {} sr instead of {} sr", what, it["uid"], e["area"], want)
        if color is not None:
            expect(e["fill"] == color, "{}: {} of color {} is filled with {}", what, it["uid"], color, e["fill"])


def by_plane(c):
    return c is not None and (c == "by plane" or c.startswith("#0000"))


def graticule(step, lines, what):
    """Meridians and parallels at the multiples of the steps; the four principal meridians up to the poles."""
    lon, lat = step
    mer = {round(x0, 6): (y0, y1) for x0, x1, y0, y1 in lines if abs(x1 - x0) < 1e-9}
    par = {round(y0, 6): (x0, x1) for x0, x1, y0, y1 in lines if abs(y1 - y0) < 1e-9}
    expect(len(mer) + len(par) == len(lines), "{}: the graticule has {} lines, {} different meridians and {} parallels", what, len(lines), len(mer), len(par))
    k = [lon * i for i in range(-math.floor(180 / lon), math.floor(180 / lon) + 1)]
    want = {(v + 180) % 360 for v in k} | {0, 90, 180, 270}
    expect({(v + 180) % 360 for v in mer} == want, "{}: meridians at {}, a step of {} was asked for", what, sorted(mer), lon)
    p = [lat * i for i in range(-math.floor((90 - 1e-4) / lat), math.floor((90 - 1e-4) / lat) + 1)]
    expect(sorted(par) == sorted(p), "{}: parallels at {}, a step of {} was asked for", what, sorted(par), lat)
    for v, (y0, y1) in mer.items():
        top = 90 if v % 90 == 0 else 90 - lat
        expect(abs(y1 - top) < 0.01 and abs(y0 + top) < 0.01, "{}: the meridian {} runs from {} to {}, should end at {}", what, v, y0, y1, top)
    for v, (x0, x1) in par.items():
        expect(x0 == -180 and x1 == 180, "{}: the parallel {} runs from {} to {}", what, v, x0, x1)


def compare(m, see, op):
    n = see
    if op in ("set", "horizontal"):                                     # shown once redrawn
        return
    what = "after %s" % op
    expect(not n["stale"], "{}: not drawn for the current view (rotation {}, clip angle {}, size {}): {}", what, m.rot, m.clip, m.size, sorted(set(n["stale"])))
    expect(n["undrawn"] == 0, "{}: {} empty paths", what, n["undrawn"])
    expect(n["size"] == [m.size, m.size], "{}: frame {} instead of {}", what, n["size"], m.size)
    expect(n["radius"] and abs(n["centre"][0] - m.size / 2) < 1 and abs(n["centre"][1] - m.size / 2) < 1, "{}: outline at {} in a frame of {}", what, n["centre"], m.size)
    if m.clip < 90 and m.clipping:
        expect(abs(n["radius"] - (m.size / 2 - m.used)) < 1, "{}: outline of radius {} in a frame of {} with margin {}", what, n["radius"], m.size, m.used)
    expect(n["graticule"] == 1, "{} graticules", n["graticule"])
    graticule(m.drawn_grid, n["lines"], what)
    expect(n["clipped"] == m.clipping, "{}: clip({}), but clipped: {}", what, m.clipping, n["clipped"])
    expect(len(n["horizons"]) == m.horizon + (1 if m.labels else 0), "{}: {} horizons", what, len(n["horizons"]))
    for h in n["horizons"]:
        expect(h["n"] == 1 and h["off"] < 1e-9 and abs(h["length"][0] - 2 * math.pi) < 1e-9, "{}: the horizon is not the horizontal circle: {}", what, h)
    for k, boxes in n["containers"].items():
        want = m.shown.get(k)
        expect(len(boxes) == (1 if want else 0), "{}: {} groups of {}", what, len(boxes), k)
        if not want:
            continue
        items = boxes[0]
        expect(len(items) == len(want) * len(m.n["data"]), "{}: {} items in {}, should be {} x {}", what, len(items), k, len(want), len(m.n["data"]))
        for j, (kind, color, level) in enumerate(want):
            for a, it in zip(m.n["data"], items[j * len(m.n["data"]):]):
                color = "#0000" + 2 * a["uid"][1:] if by_plane(color) else color
                part(kind, a, it, color or ("#aaaaaa" if kind == "planes" else a.get("color") or "#aaaaaa"), what, level)
    if m.labels:
        expect(sorted(l["name"] for l in n["labels"]) == ["Down", "E", "N", "S", "Up", "W"], "{}: labels {}", what, [l["name"] for l in n["labels"]])
        if m.frozen is None or m.frozen == m.view():
            for l in n["labels"]:
                if l["dist"] > 91:
                    expect(not l["shown"], "{}: label {} on the far side is shown", what, l["name"])
                if 46 < l["dist"] < 90.2:
                    expect(l["shown"], "{}: label {} is not shown", what, l["name"])
                if l["shown"]:
                    expect(l["off"] < 16, "{}: label {} is {} px from its direction", what, l["name"], l["off"])
    else:
        expect(not n["labels"], "{}: labels nobody asked for", what)


@check.law(histories(), quick=900, thorough=20000)
def net_histories(case):
    models = [Model(n) for n in case["nets"]]
    views, states = [], []
    for s in case["steps"]:
        models[s["net"]].apply(s)
        for m in models:
            m.moved(s)
        views.append([m.view() for m in models])
    r = js("history", nets=case["nets"], steps=case["steps"], views=views)
    models = [Model(n) for n in case["nets"]]
    pending = [False] * len(models)
    for s, got, see in zip(case["steps"], r["got"], r["seen"]):
        i = s["net"]
        models[i].apply(s)
        for m in models:
            m.moved(s)
        m = models[i]
        if s["op"] == "labels" or (s["op"] == "mount" and m.labels) or s["op"] == "rotate":
            m.frozen = None
        expect(got["out"] is None, "setting {} does not return the stereonet", got["out"])
        expect([got["size"], got["margin"], got["clip"]] == [m.size, m.margin, m.clip], "size, margin, clip angle read back as {}", [got["size"], got["margin"], got["clip"]])
        for k, (x, rot) in enumerate(zip(models, got["rotate"])):
            d = [abs((p - q + 180) % 360 - 180) for p, q in zip(normal_rotation(rot), normal_rotation(x.rot))]
            expect(max(d) < 1e-6, "after {} stereonet {} is turned to {}, should be {}", s["op"], k, rot, x.rot)
        if s["op"] == "set":
            pending[i] = True
            if any(c[0] in ("size", "clipAngle") for c in s["calls"]) and m.labels:
                m.frozen = "labels follow with the next turn"
        else:
            pending[i] = False
        for k, (x, q) in enumerate(zip(models, see)):
            if q is not None and not pending[k]:
                compare(x, q, s["op"])
        if s["op"] == "vertical":
            q = see[i]
            expect(len(q["azimuth"]) == 1 and [t["text"] for t in q["azimuth"][0]] == ["N", "E", "S", "W"], "azimuth labels {}", q["azimuth"])
            for t, az in zip(q["azimuth"][0], (0, 90, 180, 270)):
                dx, dy = t["at"][0] - m.size / 2, t["at"][1] - m.size / 2
                got_az = math.degrees(math.atan2(dx, -dy)) % 360
                expect(abs((got_az - az + 180) % 360 - 180) < 1 and 0 <= math.hypot(dx, dy) - (m.size / 2 - m.margin) < 15, "label {} is at azimuth {}, {} px from the centre (radius {})", t["text"], got_az, math.hypot(dx, dy), m.size / 2 - m.margin)
            expect(len(q["dips"]) == 1, "dip labels {}", q["dips"])
            if s["options"]:
                expect([t["text"] for t in q["dips"][0]] == ["%d°" % d for d in s["options"]["dipLabels"]], "dip labels {}, asked for {}", [t["text"] for t in q["dips"][0]], s["options"])
            for t in q["dips"][0]:
                if t["want"] and all(isinstance(v, (int, float)) for v in t["want"]):
                    expect(math.hypot(t["at"][0] - t["want"][0], t["at"][1] - t["want"][1]) < 0.01, "dip label {} is at {}, should be at {}", t["text"], t["at"][:2], t["want"])
        c, w = got["centre"], got["middle"]
        a, b = ([math.cos(math.radians(q[1])) * math.cos(math.radians(q[0])), math.cos(math.radians(q[1])) * math.sin(math.radians(q[0])), math.sin(math.radians(q[1]))] for q in (c, w))
        expect(not m.mounted or math.dist(a, b) < 1e-6, "the centre of the view is {}, should be {}", c, w)
        if s["op"] == "horizontal":
            at = {t["text"]: t["at"] for t in see[i]["sides"][-3:]}
            z, g_ = m.size, m.margin
            expect(at == dict(E=[z - g_, z / 2], W=[g_, z / 2], Vertical=[z / 2, g_]), "labels of the horizontal view at {} in a frame of {} with margin {}", at, z, g_)
    ops = [s["op"] for s in case["steps"]]
    first = min([k for k, o in enumerate(ops) if o in ("planes", "poles")], default=None)
    return sorted(set(ops)) + ["%d nets" % len(models)], first is not None and bool({"set", "rotate", "move"} & set(ops[first:]))


@st.composite
def plot_data(draw):
    out = []
    for i in range(draw(st.integers(0, 5))):
        e = draw(st.tuples(st.floats(0.5, 60), st.floats(0.5, 60)).map(sorted))
        if draw(st.booleans()):
            a = dict(strike=draw(st.floats(0, 360)), dip=draw(st.floats(0, 90)), rake=draw(st.floats(0, 180)), minError=e[0], maxError=e[1])
        else:
            a = draw(planes(1, 1))[0]
        a["uid"] = "p%d" % i
        c = draw(st.one_of(st.none(), st.sampled_from(COLORS)))
        if c:
            a["color"] = c
        elif "color" in a:
            a["color"] = None
        if draw(st.integers(0, 3)) == 0:
            a["in_group"] = True
        out.append(a)
    return out


def alpha(c, want):
    m = re.match(r"^(.*)@([-\d.e]+)$", c or "")
    expect(m is not None and m.group(1) == want, "{} is drawn in {}", want, c)
    return float(m.group(2))


@check.law(st.fixed_dictionaries(dict(kind=st.sampled_from(["vertical", "vertical", "rectangular"]), renders=st.lists(st.tuples(plot_data(), st.one_of(st.none(), st.integers(2, 90), st.floats(2, 90)), st.sampled_from([None, None, "same data", "a little wider"])), min_size=1, max_size=4))), quick=400, thorough=8000)
def ready_plots(case):
    rect = case["kind"] == "rectangular"
    renders = []
    for data, clip, again in case["renders"]:
        if again and renders:       # the same data once more, in another view
            data = renders[-1]["data"]
            if again == "a little wider" and not rect and (renders[-1]["clip"] or 15) < 89:
                clip = (renders[-1]["clip"] or 15) + 0.25
        if rect:
            if any("axes" not in a for a in data):
                data = [a for a in data if "axes" in a]
            s = (800 / 2 - 25) / (2 * math.sin(math.radians(20)))
            v = dict(rot=[-60, -72, 70], scale=s, translate=[260, 355 / 2 + 25], clip=90)
            renders.append(dict(data=data, clip=None, view=v, same=bool(again and renders)))
        else:
            c = 15 if clip is None else clip
            s = (200 - 25) / (2 * math.sin(math.radians(c) / 2)) if c < 90 else 400 / 2.5 - 25
            renders.append(dict(data=data, clip=clip, view=dict(rot=[0, -90], scale=s, translate=[200, 200], clip=c), same=bool(again and renders)))
    out = js("plot", kind=case["kind"], renders=renders)
    for r, o in zip(renders, out):
        expect(o["svgs"] == 1 and o["neatlines"] == 1, "{} plots, {} outlines after rendering again", o["svgs"], o["neatlines"])
        expect(not o["stale"], "not drawn for the view of the plot: {}", sorted(set(o["stale"])))
        expect(o["intact"], "the data were changed")
        expect([i["uid"] for i in o["items"]] == [a["uid"] for a in r["data"]], "shows {}, given {}", [i["uid"] for i in o["items"]], [a["uid"] for a in r["data"]])
        levels = []
        for a, it in zip(r["data"], o["items"]):
            expect(len(it["paths"]) == 1 and "error" in it["paths"][0]["cls"], "{}: {} paths", it["uid"], len(it["paths"]))
            p = it["paths"][0]
            c = a.get("color") or "#aaaaaa"
            dashed = bool(a.get("in_group")) and not rect
            e = a["max_angular_error"] if "max_angular_error" in a else a["maxError"]
            sa = alpha(p["stroke"], c)
            expect((p["dash"] is not None) == dashed, "{} in a group: {}, dashed: {}", it["uid"], bool(a.get("in_group")), p["dash"])
            if dashed:
                expect(p["fill"] in ("transparent", "none") or p["fill"].endswith("@0"), "{}, drawn by its group, is filled with {}", it["uid"], p["fill"])
            else:
                fa = alpha(p["fill"], c)
                expect(0 < fa <= 0.8 + 1e-9 and sa >= fa, "opacity {} of the fill, {} of the outline of {}", fa, sa, it["uid"])
                levels.append((e, fa))
        levels.sort()
        for (e1, f1), (e2, f2) in zip(levels, levels[1:]):
            expect(f2 <= f1 + 1e-9 or e1 == e2, "an error of {} is drawn with opacity {}, {} with {}", e1, f1, e2, f2)
        if not rect:
            expect([t["text"] for t in o["azimuth"][0]] == ["N", "E", "S", "W"], "labels {}", o["azimuth"])
        else:
            expect(o["size"] == [800, 390] and len(o["rects"]) == 1, "frame {}, {} rectangles", o["size"], len(o["rects"]))
            expect(len(o["labels"]) == 2 and [x["title"] for x in o["labels"]] == [["Dip"], ["Dip azimuth"]], "titles {}", [x["title"] for x in o["labels"]])
            for t in o["labels"][0]["ticks"]:
                expect(abs(float(t["text"].rstrip("°")) - (90 - t["pos"][1])) < 0.5, "dip label {} is where the dip is {}", t["text"], 90 - t["pos"][1])
            for t in o["labels"][1]["ticks"]:
                v = {"N": 0, "E": 90, "S": 180, "W": 270}.get(t["text"])
                v = float(t["text"].rstrip("°")) if v is None else v
                expect(abs((v - (180 - t["pos"][0]) + 180) % 360 - 180) < 0.5 / max(0.05, math.cos(math.radians(t["pos"][1]))), "azimuth label {} is where the azimuth is {}", t["text"], 180 - t["pos"][0])
            expect(all(len(x["ticks"]) >= 2 for x in o["labels"]), "labels {}", o["labels"])
    return [case["kind"], "%d renders" % len(renders)], len(renders) > 1 and any(r["data"] for r in renders)


@check.law(st.fixed_dictionaries(dict(errors=st.lists(st.floats(0, 30), min_size=2, max_size=6), color=st.sampled_from(COLORS + ["nonsense", None]), domain=st.one_of(st.none(), st.floats(0.5, 25).map(lambda v: [0, v])), custom=st.booleans(), alias=st.booleans())), quick=800, thorough=10000)
def opacities(case):
    top = case["domain"][1] if case["domain"] else 5
    errors = sorted(case["errors"] + [0.0, top, top * 2])
    out = js("opacity", **dict(case, errors=errors))
    c = case["color"] if case["color"] in COLORS else "#aaaaaa"
    prev = None
    for e, o in zip(errors, out):
        f, s = alpha(o["fill"], c), alpha(o["stroke"], c)
        expect(0.1 - 1e-9 <= f <= 0.8 + 1e-9 and s > f, "opacity {} of the fill, {} of the outline for an error of {}", f, s, e)
        if e == 0:
            expect(abs(f - 0.8) < 1e-9, "opacity {} without error", f)
        if e >= top:
            expect(abs(f - 0.1) < 1e-9, "opacity {} for an error of {}, beyond {}", f, e, top)
        expect(prev is None or f <= prev + 1e-12, "opacity rises from {} to {} at an error of {}", prev, f, e)
        prev = f
    return ["custom" if case["custom"] else "own"], len(set(errors)) > 3
