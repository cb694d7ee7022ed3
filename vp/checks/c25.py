"""C25: the web application plots what its sheet says."""
from ..core import Check, Skip, expect
from .. import gens as g, node
from ..gens import np, st
import math
import re

from .c22 import cap_area

APP = node.bundle("app")

check = Check("C25", rule=(
    "Histories of up to 10 steps on the web application (typing and pasting blocks of numbers, text, colors and blanks into the sheet, adding "
    "rows, resetting, clip angles, switches, pointing at plots) from the default or a stored sheet, compared after every step with a model of the sheet and of "
    "the planes it describes. Non-trivial: an edit that completes, changes or breaks a row."),
    assumptions=["React, blueprint, the grid component, stored state and the color library are small stand-ins with the same contracts",
                 "cell values are strings as typed, pasted cells lie in the sheet"])


def js(op, **kw):
    return node.connect(APP, "app_ops.js").call(op, **kw)


DEFAULT = [["10", "8", "2", "20", "8", "#65499e"], ["120", "46", "5", "45", "2", "dodgerblue"]]
JUNK = ["abc", "-", "N30E", "x1", " ", "NaN", "--3", "°"]
VALID = ["red", "green", "#abc", "#65499e", "blue"]
BAD = ["nocolor", "#12", "12", "rgb", " "]
plainnum = st.one_of(st.integers(0, 360).map(str), st.floats(0, 90).map(lambda v: "%.3f" % v), st.sampled_from(["0", "5", "12.5", "1e1", "-30", " 7", "7 ", "+4", ".5", "3."]))
width = st.one_of(st.floats(0.5, 80).map(lambda v: "%.2f" % v), st.integers(1, 60).map(str))
odd = st.sampled_from(["12abc", "30°", "4,5", "1_000", "2 3"])      # whether these count is for the code to say, once
blank = st.sampled_from([None, "", ""])
number = st.one_of(plainnum, plainnum, plainnum, plainnum, st.sampled_from(JUNK), odd, blank)
err = st.one_of(width, width, width, width, st.sampled_from(JUNK), odd, blank)
color = st.one_of(st.sampled_from(VALID), st.sampled_from(BAD), blank)
columns = [number, number, number, err, err, color]
row = st.tuples(*columns).map(list)
full = st.tuples(plainnum, plainnum, plainnum, width, width, st.one_of(st.sampled_from(VALID), blank)).map(list)


@st.composite
def step(draw):
    op = draw(st.sampled_from(["cell", "cell", "cell", "row", "row", "block", "more", "reset", "clip", "planes", "poles", "point"]))
    r = draw(st.integers(0, 30))
    if op == "cell":
        c = draw(st.integers(0, 5))
        return dict(op="edit", at=[r, c], block=[[draw(columns[c])]])
    if op == "row":
        return dict(op="edit", at=[r, 0], block=[draw(st.one_of(full, full, row))])
    if op == "block":
        c, w = draw(st.integers(0, 5)), draw(st.integers(1, 6))
        return dict(op="edit", at=[r, c], block=[[draw(columns[k]) for k in range(c, min(6, c + w))] for _ in range(draw(st.integers(1, 4)))])
    if op == "clip":
        return dict(op="clip", value=draw(st.one_of(st.integers(1, 90), st.floats(0.5, 90))))
    return dict(op=op, i=r) if op == "point" else dict(op=op)


case_ = st.fixed_dictionaries(dict(stored=st.one_of(st.none(), st.none(), st.lists(st.one_of(full, row, st.just([None] * 6)), min_size=1, max_size=12)), steps=st.lists(step(), min_size=1, max_size=10)))
NUM = re.compile(r"^\s*[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?\s*$")


def parse(v):
    """Value of a plain number, None for junk, 'odd' where it is not ours to say."""
    if v is None or v == "":
        return None
    if NUM.match(v):
        return float(v)
    return None if v in JUNK else "odd"


def lead(v):
    m = re.match(r"^\s*([+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?)", v or "")
    return float(m.group(1)) if m else None


def finalize(rows):
    for r in rows:
        a, b = lead(r[3]), lead(r[4])
        if a is not None and b is not None and a < b:
            r[3], r[4] = r[4], r[3]


def text(v):
    return "" if v is None else v


def compare(model, clip, see, planes, poles):
    expect(see["sheets"] == 1 and see["head"] == [["", "Strike", "Dip", "Rake", "Max.", "Min.", "Color"]], "header {}", see["head"])
    expect(len(see["rows"]) == len(model), "{} rows, should be {}", len(see["rows"]), len(model))
    want = []
    for i, (r, s) in enumerate(zip(model, see["rows"])):
        expect(s[0]["text"] == str(i + 1), "row {} is numbered {}", i + 1, s[0]["text"])
        expect([c["text"] for c in s[1:]] == [text(v) for v in r], "row {} shows {}, holds {}", i + 1, [c["text"] for c in s[1:]], r)
        st_ = [c["status"] for c in s[1:]]
        for k, (v, q) in enumerate(zip(r, st_)):
            if v is None or v == "":
                w = "empty"
            elif k == 5:
                w = "ok" if v in VALID + ["dodgerblue"] else "invalid"
            else:
                p = parse(v)
                w = q if p == "odd" and q in ("ok", "invalid") else "ok" if p is not None else "invalid"
            expect(q == w, "cell {!r} in column {} is marked {}, should be {}", v, k + 1, q, w)
        if all(q == "ok" for q in st_[:5]):
            want.append((i, r, st_))
    expect([[text(v) for v in r] for r in model] == [[text(v) if not isinstance(v, (int, float)) else repr(v) for v in r] for r in see["stored"]], "stored sheet {} of {}", see["stored"], model)
    expect(len(see["nets"]) == 2, "{} plots", len(see["nets"]))
    for kind, net, on, clipped in (("normal", 0, poles, None), ("plane", 0, planes, None), ("normal", 1, True, clip)):
        n = see["nets"][net]
        items = [x for x in n["items"] if x["kind"] == kind]
        what = "plot %d, %ss" % (net + 1, kind)
        expect(len(items) == (len(want) if on else 0), "{}: {} drawn for {} complete rows", what, len(items), len(want))
        for x, (i, r, st_) in zip(items, want if on else []):
            d = x["data"]
            for k, v in zip(("strike", "dip", "rake", "maxError", "minError"), r):
                p = parse(v)
                expect(isinstance(d.get(k), (int, float)) and (p == "odd" or abs(d[k] - p) < 1e-9 * (1 + abs(p))), "{}: row {} is plotted with {} {} instead of {!r}", what, i + 1, k, d.get(k), v)
            c = r[5] if st_[5] == "ok" else None
            expect(d.get("color") == c, "{}: row {} is plotted with color {} instead of {}", what, i + 1, d.get("color"), c)
            expect(x["drawn"] and x["fill"].split("@")[0] == (c or "#aaaaaa"), "{}: row {} of color {} is drawn in {}", what, i + 1, c, x["fill"])
            fa, sa = float(x["fill"].split("@")[1]), float(x["stroke"].split("@")[1])
            expect(0 < fa <= 0.8 + 1e-9 and sa >= fa, "{}: row {}: opacity {} of the fill, {} of the outline", what, i + 1, fa, sa)
            s, dip = math.radians(d["strike"]), math.radians(d["dip"])
            pole = np.array([math.sin(dip) * math.cos(s), -math.sin(dip) * math.sin(s), math.cos(dip)])
            lo, hi = sorted((d["minError"], d["maxError"]))
            if kind == "normal" and 0.5 <= lo and hi <= 80:
                area = 2 * cap_area(math.tan(math.radians(lo / 2)), math.tan(math.radians(hi / 2)))
                expect((0.45 if hi > 3 * lo else 0.85) * area < x["area"] < 1.05 * area, "{}: the error of row {} covers {} sr instead of {} sr", what, i + 1, x["area"], area)
                off = math.degrees(math.acos(min(1, abs(pole.dot(x["pole"])))))
                expect(off < 1, "{}: the pole of row {} is drawn {} deg away", what, i + 1, off)
            if clipped is not None and clipped < 89.9 and 0.5 <= lo and hi <= 80:
                out = math.degrees(math.acos(min(1, abs(pole[2]))))
                if out < clipped * 0.98 - 0.1:
                    expect(x["path"] > 0, "{}: the pole of row {}, {} deg from the vertical, is not drawn within {} deg", what, i + 1, out, clipped)
                if out - hi / 2 > clipped + 0.5:
                    expect(x["path"] == 0, "{}: row {}, {} deg from the vertical, is drawn in a plot of {} deg", what, i + 1, out, clipped)
    n = see["nets"][1]
    expect(n["radius"] <= min(n["svg"]) / 2 + 0.5, "the clipped plot at {} deg has a radius of {} in a frame of {}", clip, n["radius"], n["svg"])
    if clip < 89.9:
        expect(n["radius"] > 0.3 * min(n["svg"]), "the clipped plot at {} deg has a radius of {} in a frame of {}", clip, n["radius"], n["svg"])
    return len(want)


@check.law(case_, quick=900, thorough=8000)
def sheet_histories(case):
    fresh = lambda: [list(r) for r in DEFAULT] + [[None] * 6 for _ in range(8)]
    rows = [list(r) for r in case["stored"]] if case["stored"] else fresh()
    steps, models = [], [[list(r) for r in rows]]
    clip, planes, poles = 15, False, True
    state = [(clip, planes, poles)]
    for s in case["steps"]:
        if s["op"] == "edit":
            r0, c0 = s["at"]
            r0 %= len(rows)
            changes = [[r0 + i, c0 + j, v] for i, line in enumerate(s["block"]) for j, v in enumerate(line) if r0 + i < len(rows) and c0 + j < 6]
            for r, c, v in changes:
                rows[r][c] = v
            finalize(rows)
            s = dict(op="edit", changes=changes)
        elif s["op"] == "more":
            rows += [[None] * 6 for _ in range(math.ceil((len(rows) + 10) / 10) * 10 - len(rows))]
        elif s["op"] == "reset":
            rows = fresh()
        elif s["op"] == "clip":
            clip = s["value"]
        elif s["op"] == "planes":
            planes = not planes
        elif s["op"] == "poles":
            poles = not poles
        steps.append(s)
        models.append([list(r) for r in rows])
        state.append((clip, planes, poles))
    r = js("history", steps=steps, stored=case["stored"])
    counts = []
    for m, q, see in zip(models, state, r["seen"]):
        counts.append(compare(m, q[0], see, *q[1:]))
    expect(all(r["intact"]), "an edit changed the stored sheet in place")
    return sorted({s["op"] for s in steps}) + ["stored" if case["stored"] else "default"], len(set(counts)) > 1 or any(s["op"] == "edit" for s in steps)
