"""C24: the notebook UI shows what its user selected, hovered and turned it to."""
from ..core import Check, Skip, expect
from .. import gens as g, node
from ..gens import np, st
import json
import math
import re

from .c21 import frame
from .c22 import girdle_area, cap_area, halves, hyper

UI = node.bundle("ui")

check = Check("C24", rule=(
    "Histories of up to 18 steps on one or two notebook UIs of one page (pointer over list entries and drawn errors, clicks, selections, buttons, "
    "switches, dragging with moves across both) over drawn sets of planes and groups (shown or not), run on the bundled TypeScript with a small "
    "document and component runtime, and compared after every step with a model of what the user did. Non-trivial: at least three kinds of step and a selection or a turn."),
    assumptions=["React, blueprint and the document are small stand-ins with the same contracts (synchronous updates)", "identifiers are unique, plain strings"])


def js(op, **kw):
    return node.connect(UI, "ui_ops.js").call(op, **kw)


COLORS = ["red", "green", "blue", "dodgerblue", "#65499e", "#abc"]
# names that begin or end alike, differ in case or blanks only, look like numbers or positions
NAMES = ["a", "a-1", "a-1-2", "aa", "A", "ba", "a b", "a b c", "0", "1", "10", "01", "-1", "1.5", "g", "group", "plane", "null", "undefined", "é", "面", "a_1", "a,1", "{a}", "x/y", "#1", ".a", "0a1f", "1e3", "constructor"]


@st.composite
def attitudes(draw):
    n = draw(st.one_of(st.integers(1, 5), st.integers(1, 5), st.integers(1, 5), st.integers(1, 5), st.integers(6, 14)))
    ng = draw(st.integers(0, 2))
    out = []
    for i in range(n + ng):
        h = draw(halves)
        a = dict(uid="%s%d" % ("p" if i < n else "g", i), axes=draw(frame), hyperbolic_axes=hyper(h, draw(g.logfloat(0.01, 1e4))),
                 strike=draw(st.floats(0, 360)), dip=draw(st.floats(0, 180)))
        a["min_angular_error"], a["max_angular_error"] = draw(st.one_of(st.just(h), st.tuples(st.floats(0, 0.02), st.floats(0, 0.02)), st.tuples(st.floats(0, 5), st.floats(0, 10))))
        c = draw(st.one_of(st.none(), st.sampled_from(COLORS), st.sampled_from(COLORS)))
        if c or draw(st.booleans()):
            a["color"] = c
        out.append((a, h))
    for k in range(ng):
        a = out[n + k][0]
        a["members"] = ["p%d" % i for i in range(n) if out[i][0].get("member_of") is None and draw(st.booleans())] + (["absent"] if draw(st.booleans()) else [])
        for u in a["members"]:
            if u != "absent":
                out[int(u[1:])][0]["member_of"] = a["uid"]
    if draw(st.integers(0, 4)) == 0:
        out[0][0].setdefault("member_of", "elsewhere")
    for a, _ in out:
        for k in ("members", "member_of"):
            if k not in a and draw(st.booleans()):
                a[k] = None
    out = draw(st.permutations(out))
    if draw(st.integers(0, 2)) == 0:
        new = dict(zip([a["uid"] for a, _ in out], draw(st.lists(st.sampled_from(NAMES), min_size=len(out), max_size=len(out), unique=True))))
        for a, _ in out:
            a["uid"] = new[a["uid"]]
            if a.get("members") is not None:
                a["members"] = [new.get(u, u) for u in a["members"]]
            if a.get("member_of") is not None:
                a["member_of"] = new.get(a["member_of"], a["member_of"])
    return dict(attitudes=[a for a, _ in out], halves=[h for _, h in out])


xy = st.tuples(st.integers(-400, 900), st.integers(-400, 900))
OPS = ["item_hover"] * 3 + ["item_click"] * 4 + ["net_hover"] * 3 + ["leave", "enter", "groups", "groups", "zoom", "zoom", "zoom", "clear", "planes", "planes", "poles", "poles", "vertical", "vertical", "select", "select", "down", "move", "up"]


@st.composite
def step(draw):
    s = dict(op=draw(st.sampled_from(OPS)))
    if s["op"] in ("item_hover", "item_click", "net_hover"):
        s["i"] = draw(st.integers(0, 12))
    elif s["op"] == "select":
        s["which"] = draw(st.lists(st.integers(0, 6), max_size=3))
    elif s["op"] in ("down", "move", "up"):
        s["x"], s["y"] = draw(xy)
    return [s]


drag = st.tuples(xy, st.lists(xy, min_size=0, max_size=2), xy).map(lambda t: [dict(op="down", x=t[0][0], y=t[0][1])] + [dict(op="move", x=p[0], y=p[1]) for p in t[1]] + [dict(op="up", x=t[2][0], y=t[2][1])])
# what a user does with a selection, close together
@st.composite
def handling(draw):
    out = []
    for op in draw(st.lists(st.sampled_from(["item_click", "select", "zoom", "clear"]), min_size=2, max_size=5)):
        s = dict(op=op)
        if op == "item_click":
            s["i"] = draw(st.integers(0, 12))
        elif op == "select":
            s["which"] = draw(st.lists(st.integers(0, 6), min_size=1, max_size=3))
        out.append(s)
    return out


steps = st.lists(st.one_of(step(), step(), step(), step(), handling(), drag), min_size=1, max_size=14).map(lambda l: [s for q in l for s in q][:18])


@st.composite
def histories(draw):
    uis = [draw(attitudes()) for _ in range(draw(st.sampled_from([1, 1, 2])))]
    for u in uis:
        u["props"] = draw(st.one_of(st.none(), st.fixed_dictionaries(dict(allowGroupSelection=st.booleans()), optional=dict(stereonetPrecision=st.sampled_from([0.1, 0.5])))))
    return dict(uis=uis, steps=[dict(s, ui=draw(st.integers(0, len(uis) - 1))) for s in draw(steps)])


class Model:
    def __init__(self, u):
        self.data, self.halves = u["attitudes"], u["halves"]
        self.by = {a["uid"]: a for a in self.data}
        self.half = {a["uid"]: h for a, h in zip(self.data, self.halves)}
        self.groupable = (u["props"] or {}).get("allowGroupSelection", True)
        self.sel, self.hov = [], []
        self.groups, self.zoom, self.planes, self.poles = True, False, False, True

    def listed(self):
        return [a["uid"] for a in self.data if self.groups or a.get("members") is None]

    def hover(self, uid):
        a = self.by[uid]
        a = self.by.get(a.get("member_of"), a)
        self.hov = [a["uid"]] + [m for m in a.get("members") or [] if m in self.by]

    def select(self, uids):
        for u in uids:
            if self.by[u].get("members") is not None and not self.groupable:
                continue
            if u in self.sel:
                self.sel.remove(u)
            else:
                self.sel.append(u)


def rotations(uis, steps):
    """Rotation of every stereonet after each step."""
    rot = [[0.0, 0.0] for _ in uis]
    grip = [None] * len(uis)
    out = [[list(r) for r in rot]]
    for s in steps:
        if s["op"] == "vertical":
            rot[s["ui"]] = [0.0, -90.0]
        elif s["op"] == "down":
            grip[s["ui"]] = (s["x"], s["y"], list(rot[s["ui"]]))
        elif s["op"] in ("move", "up"):
            for i, gr in enumerate(grip):
                if gr:
                    rot[i] = [gr[2][0] + (s["x"] - gr[0]) / 3, max(-90.0, min(90.0, gr[2][1] + (gr[1] - s["y"]) / 3))]
            if s["op"] == "up":
                grip = [None] * len(uis)
        out.append([list(r) for r in rot])
    return out


def alpha(c, a):
    m = re.match(r"^(.*)@([-\d.e]+)$", c or "")
    expect(m is not None and m.group(1).split("-")[0].split("+")[0] == (a.get("color") or "#aaaaaa"), "{} is drawn in {}", a.get("color"), c)
    return float(m.group(2))


def region(m, it, p, plane):
    """An error region belongs to its plane."""
    ta, tb = (math.tan(math.radians(x)) for x in m.half[it["uid"]])
    h = m.by[it["uid"]]["hyperbolic_axes"]
    r = [math.sqrt(h[2] / h[0]), math.sqrt(h[2] / h[1])]
    if plane:
        expect(p["inplane"] and not p["pole"], "the error surface of {} does not follow the plane", it["uid"])
        want = girdle_area(*r)
    else:
        expect(p["pole"] and not p["inplane"], "the error ellipse of {} is not around its pole", it["uid"])
        want = 2 * cap_area(*r)
    expect((0.45 if max(r[0] / r[1], r[1] / r[0]) > 3 else 0.85) * want < p["area"] < 1.12 * want, "the error of {} covers {} sr instead of {} sr", it["uid"], p["area"], want)


def drawn(m, got, uids, kind, hovered=False):
    what = ("hovered " if hovered else "") + kind
    got = got or []
    expect(isinstance(got, list), "{}: drawn more than once", what)
    got = [i for i in got if i["kind"] == kind]
    expect([i["uid"] for i in got] == uids, "{}s drawn: {}, should be {}", what, [i["uid"] for i in got], uids)
    for it in got:
        a = m.by[it["uid"]]
        expect(it["inGroup"] == (a.get("member_of") is not None) and it["isGroup"] == (a.get("members") is not None), "{} {} is marked in-group={} is-group={}", what, it["uid"], it["inGroup"], it["isGroup"])
        err = [p for p in it["paths"] if "error" in p["cls"]]
        nom = [p for p in it["paths"] if "nominal" in p["cls"]]
        expect(len(err) + len(nom) == len(it["paths"]), "{} {}: unknown parts", what, it["uid"])
        if kind == "plane" and not hovered and a["max_angular_error"] > 45:
            expect(not err, "error of the unconstrained plane {} is drawn", it["uid"])
        else:
            expect(len(err) == 1, "{} {}: {} error regions", what, it["uid"], len(err))
            region(m, it, err[0], kind == "plane")
        expect(len(nom) == (1 if kind == "plane" and not hovered else 0), "{} {}: {} nominal planes", what, it["uid"], len(nom))
        for p in nom:
            expect(p["off"] < 1e-6, "nominal plane of {} is drawn elsewhere", it["uid"])
            if a.get("color"):
                expect(p["stroke"] == a["color"], "nominal plane of color {} is drawn in {}", a["color"], p["stroke"])
        for p in err:
            if hovered:
                expect(p["style"].get("fill") == a.get("color") and p["style"].get("stroke") == a.get("color") and float(p["style"].get("opacity", 0)) == 1, "hovered {} of color {}: {}", it["uid"], a.get("color"), p["style"])
                expect(("fill-opacity" in p["style"]) == (a.get("member_of") is None), "hovered {}: {}", it["uid"], p["style"])
            else:
                f, s = alpha(p["fill"], a), alpha(p["stroke"], a)
                e = a["max_angular_error"]
                expect(0.1 - 1e-9 <= f <= 0.8 + 1e-9 and s > f, "{}: opacity {} of the fill, {} of the outline", it["uid"], f, s)
                expect(not (e >= 5 and f > 0.1 + 1e-9), "{} with an error of {} deg has opacity {}", it["uid"], e, f)
    if not hovered:
        by = sorted((m.by[i["uid"]]["max_angular_error"], -alpha(p["fill"], m.by[i["uid"]])) for i in got for p in i["paths"] if "error" in p["cls"])
        for (e, f), (e2, f2) in zip(by, by[1:]):
            expect(f2 >= f - 1e-12, "an error of {} deg is drawn with opacity {}, {} deg with {}", e, -f, e2, -f2)


def number(text, label):
    q = re.findall(re.escape(label) + r"\s*:?\s*(-?[\d.]+)\s*º", text)
    expect(len(q) == 1, "{} is given {} times in {!r}", label, len(q), text)
    return float(q[0])


def compare(m, see):
    want = m.listed()
    expect([i["text"] for i in see["list"]] == want, "listed: {}, should be {}", [i["text"] for i in see["list"]], want)
    for i in see["list"]:
        u, a = i["text"], m.by[i["text"]]
        expect(("selected" in i["cls"]) == (u in m.sel), "{} marked as selected: {}; selection {}", u, i["cls"], m.sel)
        expect(("hovered" in i["cls"]) == (u in m.hov), "{} marked as hovered: {}; hovered {}", u, i["cls"], m.hov)
        c = a.get("color") or "gray"
        st_ = {} if u not in m.hov else dict(stroke=c, color=c) if a.get("member_of") is not None else dict(backgroundColor=c, color="white")
        expect(i["style"] == st_, "{} is listed in style {} instead of {}", u, i["style"], st_)
    expect(len(see["copy"]) == 1 and json.loads(see["copy"][0]) == m.sel, "text to copy: {}, selection {}", see["copy"], m.sel)
    b = {x["text"]: x["disabled"] for x in see["button"]}
    none = not m.sel
    expect(b.get("Clear selection") == none and b.get("Copy to clipboard") == none and b.get("Show all data" if m.zoom else "Show only selection") == none and b.get("Vertical") is False
           and ("Show only selection" if m.zoom else "Show all data") not in b, "buttons {} with selection {}, zoomed {}", b, m.sel, m.zoom)
    s = {x["label"]: x["checked"] for x in see["sw"]}
    expect(s == {"Show groups": m.groups, "Planes": m.planes, "Poles": m.poles}, "switches {}", s)
    expect(len(see["panel"]) == 1, "{} information panels", len(see["panel"]))
    t = see["panel"][0]
    if not m.hov:
        expect(t == "Roll over a measurement to see details", "panel without a hovered measurement: {!r}", t)
    else:
        a = m.by[m.hov[0]]
        expect(re.match(r"ID:\s*%s\s*(Group of|Nominal)" % re.escape(a["uid"]), t), "panel of {}: {!r}", a["uid"], t)
        k = len(a.get("members") or [])
        expect(("Group of %d measurements" % k in t) if k else "Group of" not in t, "panel of a group of {}: {!r}", k, t)
        vals = [("Strike", a["strike"]), ("Dip", a["dip"])]
        e = a["min_angular_error"], a["max_angular_error"]
        if max(e) < 0.01:
            expect("No errors recorded" in t and "Min" not in t and "Max" not in t, "panel for errors {}: {!r}", e, t)
        else:
            vals += [("Min", e[0]), ("Max", e[1])]
            expect("No errors" not in t, "panel for errors {}: {!r}", e, t)
        for lab, v in vals:
            got = number(t, lab)
            expect(abs(got - v) <= 0.0500001, "{} {} is shown as {}", lab, v, got)
    n = see["net"]
    expect(not n["stale"], "not redrawn after a change of view: {}", sorted(set(n["stale"])))
    expect(abs(n["centre"][0] - n["size"] / 2) < 1 and abs(n["centre"][1] - n["size"] / 2) < 1 and n["radius"] < n["size"] / 2, "the net (radius {}, centre {}) is not in its frame of {}", n["radius"], n["centre"], n["size"])
    shown = m.sel if m.zoom else [a["uid"] for a in m.data]
    drawn(m, n["poles"], shown if m.poles else [], "normal")
    drawn(m, n["planes"], shown if m.planes else [], "plane")
    drawn(m, n["hovered"], m.hov if m.planes else [], "plane", True)
    drawn(m, n["hovered"], m.hov if m.poles else [], "normal", True)
    expect(sorted(l["name"] for l in n["labels"]) == ["Down", "E", "N", "S", "Up", "W"], "labels {}", [l["name"] for l in n["labels"]])
    for l in n["labels"]:
        if l["dist"] > 91:
            expect(not l["shown"], "label {} on the far side is shown", l["name"])
        if 46 < l["dist"] < 90.2:
            expect(l["shown"], "label {} is not shown", l["name"])
        if l["shown"]:
            expect(l["off"] < 16, "label {} is {} px from its direction", l["name"], l["off"])


@check.law(histories(), quick=1600, thorough=24000)
def user_histories(case):
    uis, steps = case["uis"], [dict(s) for s in case["steps"]]
    for s in steps:
        s["ui"] %= len(uis)
        if s["op"] == "select":
            d = uis[s["ui"]]["attitudes"]
            s["uids"] = list(dict.fromkeys(d[i % len(d)]["uid"] for i in s.pop("which")))
    rots = rotations(uis, steps)
    r = js("history", uis=[dict(attitudes=u["attitudes"], props=u["props"]) for u in uis], steps=steps, rots=rots)
    models = [Model(u) for u in uis]
    expect(all(r["unchanged"]), "the data passed in were changed")
    for m, see in zip(models, r["seen"][0]):
        compare(m, see)
    for s, did, see in zip(steps, r["did"], r["seen"][1:]):
        m, o = models[s["ui"]], s["op"]
        if o in ("item_hover", "net_hover"):
            if did is not None:
                m.hover(did)
        elif o == "item_click":
            if did is not None:
                m.select([did])
        elif o == "select":
            if did is not None:
                m.select(did)
        elif o == "leave":
            m.hov = []
        elif o == "groups":
            m.groups = not m.groups
        elif o == "zoom":
            if m.sel:
                m.zoom = not m.zoom
        elif o == "clear":
            m.sel = []
        elif o == "planes":
            m.planes = not m.planes
        elif o == "poles":
            m.poles = not m.poles
        for mm, ss in zip(models, see):
            compare(mm, ss)
    ops = [s["op"] for s in steps]
    return sorted(set(ops)) + ["%d uis" % len(uis)], len(set(ops)) >= 3 and bool({"item_click", "select", "up", "vertical"} & set(ops))


sec_plane = st.fixed_dictionaries(dict(axes=frame, h=halves, s=g.logfloat(0.01, 1e3), color=st.sampled_from(COLORS), c=st.tuples(st.floats(-1, 1), st.floats(-1, 1), st.floats(-1, 1)),
                                       trace=st.one_of(st.none(), st.lists(st.tuples(st.floats(-5, 5), st.floats(-5, 5), st.floats(-5, 5)), min_size=2, max_size=4))))


@check.law(st.fixed_dictionaries(dict(planes=st.lists(sec_plane, min_size=2, max_size=5), origin=st.tuples(st.floats(-1e5, 1e5), st.floats(-1e5, 1e5), st.floats(-3000, 5000)), size=g.logfloat(20, 2000),
                                      flat=g.logfloat(0.01, 3), group=st.lists(st.integers(0, 4), max_size=3), second=st.lists(st.integers(0, 4), max_size=2), az=st.lists(st.tuples(st.floats(-7, 7), st.one_of(st.none(), st.lists(st.integers(0, 4), max_size=3)), g.mostly(st.just(None), g.logfloat(1e-4, 0.1), 3)), min_size=1, max_size=4))),
           quick=800, thorough=12000)
def side_view(case):
    """The cross-section places every plane by its axes, in its frame, at equal scales, as it is turned and hovered."""
    n = len(case["planes"])
    members = sorted({i % n for i in case["group"]})
    second = sorted({i % n for i in case["second"]} - set(members))
    of = {i: u for u, l in (("g", members), ("h", second)) for i in l}
    data = []
    for i, p in enumerate(case["planes"]):
        c = np.array(p["c"]) * case["size"] * np.array([1, 1, case["flat"]]) + case["origin"]
        if abs(p["axes"][2][2]) < 0.02 or math.hypot(*p["axes"][0][:2]) < 1e-3:
            raise Skip("vertical axis")
        d = dict(uid="p%d" % i, axes=p["axes"], hyperbolic_axes=hyper(p["h"], p["s"]), center=c.tolist(), color=p["color"])
        if p["trace"]:
            d["centered_array"] = [list(q) for q in p["trace"]]
        if i in of:
            d["member_of"] = of[i]
        data.append(d)
    C = np.array([d["center"] for d in data])
    if np.hypot(*np.ptp(C[:, :2], axis=0)) < 0.2 * case["size"]:
        raise Skip("planes in one place")
    if members:
        data.append(dict(data[members[0]], uid="g", members=["p%d" % i for i in members], color="blue", member_of=None))
    if second:
        data.append(dict(data[second[0]], uid="h", members=["p%d" % i for i in second], color="blue", member_of=None))
    colors = {d["uid"]: d["color"] for d in data}
    updates = []
    for a, h, near in case["az"]:
        if near is not None and updates:      # turned a little further
            a = updates[-1]["azimuth"] + near
        updates.append(dict(azimuth=a, hovered=None if h is None else sorted({"p%d" % (i % n) for i in h})))
    r = js("side", data=data, updates=updates)
    mid = (C.min(axis=0) + C.max(axis=0)) / 2
    traced = ["p%d" % i for i, p in enumerate(case["planes"]) if p["trace"]]
    expect(r["hovers"] == traced * len(updates), "traces hovered in turn: {}, reported {}", traced * len(updates), r["hovers"])
    for u, o in zip(updates, r["out"]):
        w, h = o["size"]
        inner = [w - o["shift"][0], h - o["shift"][1]]
        ticks = {}
        for k, i in (("x", 0), ("y", 1)):
            expect(len(o[k]) >= 2, "axis {} has {} ticks", k, len(o[k]))
            t = np.array([[a[0], a[1][i]] for a in o[k]])
            ticks[k] = t
            if np.ptp(t[:, 0]) < 8 * 1:
                raise Skip("axis labels are rounded too coarsely")
        kx, x0 = np.polyfit(*ticks["x"].T, 1)
        ky, y0 = np.polyfit(*ticks["y"].T, 1)
        rx, ry = (0.6 * 2 / np.ptp(ticks[k][:, 0]) for k in ("x", "y"))   # labels are rounded to 1 m
        expect(abs(kx + ky) <= (rx + ry) * abs(kx), "scales of {} and {} px per metre", kx, ky)
        vp = u["azimuth"] - math.pi / 2
        expect(sorted(b["uid"] for b in o["errors"]) == sorted("p%d" % i for i in range(n)), "errors drawn: {}", [b["uid"] for b in o["errors"]])
        expect(sorted(b["uid"] for b in o["grouped"]) == ["g"] * len(members) + ["h"] * len(second), "grouped errors drawn: {}", o["grouped"])
        expect([t["uid"] for t in o["traces"]] == traced, "traces drawn: {}", [t["uid"] for t in o["traces"]])
        for b in o["errors"]:
            expect(b["grouped"] == (int(b["uid"][1:]) in of), "{} is marked as grouped: {}", b["uid"], b["grouped"])
        for b in o["errors"] + o["traces"]:
            q = C[int(b["uid"][1:])] - mid
            # distance along the section from its left end, elevation
            x, y = b["t"][0], b["t"][1]
            along = q[0] * math.cos(vp) + q[1] * math.sin(vp)
            expect(-1 <= x <= inner[0] + 1 and -1 <= y <= inner[1] + 1, "{} is drawn at {}, {}, outside of its frame {}", b["uid"], x, y, inner)
            elev = (y - y0) / ky
            expect(abs(elev - (q[2] + mid[2])) <= 1.1 + 2 / abs(ky), "{} at elevation {} is drawn at {}", b["uid"], q[2] + mid[2], elev)
            b["along"] = along
        for p1, p2 in zip(o["errors"], o["errors"][1:]):
            expect(abs((p2["t"][0] - p1["t"][0]) - kx * (p2["along"] - p1["along"])) <= 2 + 2 * rx * abs(kx * (p2["along"] - p1["along"])), "{} and {} are {} m apart along the section and drawn {} m apart",
                   p1["uid"], p2["uid"], p2["along"] - p1["along"], (p2["t"][0] - p1["t"][0]) / kx)
        # turned to its trace in the section, its group's if it is drawn for the group
        for kind in ("errors", "grouped", "traces"):
            for b in o[kind]:
                owner = of.get(int(b["uid"][1:]), b["uid"]) if kind == "traces" else b["uid"]
                nrm = [d for d in data if d["uid"] == owner][0]["axes"][2]
                want = math.degrees(math.atan((nrm[0] * math.cos(vp) + nrm[1] * math.sin(vp)) / nrm[2]))
                expect(len(b["t"]) == 3 and abs(math.remainder(b["t"][2] - want, 180)) < 1e-3, "{} of {} is turned by {} deg; its trace is at {} deg", kind, b["uid"], b["t"][2:], want)
        at = {b["uid"]: b["t"][:2] for b in o["errors"]}
        for u_, l in (("g", members), ("h", second)):
            if not l:
                continue
            a, b = np.array([b["t"][:2] for b in o["grouped"] if b["uid"] == u_]), np.array([at["p%d" % i] for i in l])
            gap = np.abs(a[:, None] - b[None]).max(axis=2)
            expect(gap.min(axis=0).max() < 1e-3 and gap.min(axis=1).max() < 1e-3, "errors of the group are drawn at {}, its members at {}", a.tolist(), b.tolist())
        depth = [C[int(b["uid"][1:])].dot([-math.sin(vp), math.cos(vp), 0]) for b in o["errors"]]
        expect(all(p >= q - 1e-6 * case["size"] for p, q in zip(depth, depth[1:])), "depths into the section, in the order of drawing: {}", depth)
        for t in o["traces"]:
            hov = u["hovered"] is not None and t["uid"] in u["hovered"]
            c = colors[t["uid"]]
            expect((t["stroke"] == c) if hov else (t["stroke"].startswith(c) and t["stroke"] != c), "trace of {} (hovered: {}) of color {} is drawn in {}", t["uid"], hov, c, t["stroke"])
            e = [b for b in o["errors"] if b["uid"] == t["uid"]][0]
            expect(abs(e["t"][0] - t["t"][0]) < 1e-6 and abs(e["t"][1] - t["t"][1]) < 1e-6, "trace and error of {} are drawn at {} and {}", t["uid"], t["t"], e["t"])
    return ["groups" if members else "single", "%d turns" % len(updates)], len(updates) > 1
