"""C22: map features and cross-section geometry of the web frontend."""
from ..core import Check, Skip, expect
from .. import gens as g, node
from ..gens import np, st
import math
import re
from scipy.integrate import quad

from .c21 import CORE, frame

check = Check("C22", rule=(
    "Drawn plane axes (upright, overturned, level, vertical), error axes (half-angles 0.5 to 60 deg), options, point sets, viewpoints and screen "
    "scales; features judged by which directions they contain and their area on the sphere, cross-section transforms by where they put points of "
    "the plane. Non-trivial: a plane that is neither level nor vertical, viewed obliquely."),
    assumptions=["the sources are bundled with esbuild; third-party modules come from the copies vendored in the repository or small stand-ins",
                 "drawing is recorded on a minimal stand-in document"])


def js(op, **kw):
    return node.connect(CORE, "core_ops.js").call(op, **kw)


def position(d, o, traditional=True):
    """Plotted position (deg) of a direction."""
    a, b, c = d
    c, b = (b, c) if o.get("traditionalLayout", traditional) else (c, -b)
    if not o.get("upperHemisphere", True):
        c = -c
    return [math.degrees(math.atan2(a, b)), math.degrees(math.asin(max(-1, min(1, c))))]


def girdle_area(ta, tb):
    """Area of the band within the error surface (tangents of the half-angles)."""
    f = lambda p: 2 * math.sin(math.atan(math.hypot(ta * math.cos(p), tb * math.sin(p))))
    return quad(f, 0, 2 * math.pi, limit=200)[0]


def cap_area(ta, tb):
    f = lambda p: 1 - math.cos(math.atan(1 / math.hypot(math.cos(p) / ta, math.sin(p) / tb)))
    return quad(f, 0, 2 * math.pi, limit=400)[0]


halves = st.tuples(st.floats(0.5, 60), st.floats(0.5, 60)).map(sorted)
layout = st.fixed_dictionaries({}, optional=dict(upperHemisphere=st.booleans(), traditionalLayout=st.booleans()))
scale = g.logfloat(1e-2, 1e4)


def hyper(halves, s):
    return [s, s * (math.tan(math.radians(halves[0])) / math.tan(math.radians(halves[1]))) ** 2, s * math.tan(math.radians(halves[0])) ** 2]


def oblique(A):
    return 0.02 < abs(A[2][2]) < 0.999


@check.law(st.fixed_dictionaries(dict(axes=frame, halves=halves, scale=scale, opts=layout, n=st.sampled_from([100, 200]), phi=st.floats(0, 360))), quick=1500, thorough=30000)
def error_surface(case):
    A = np.array(case["axes"])
    h = hyper(case["halves"], case["scale"])
    ta, tb = (math.tan(math.radians(x)) for x in case["halves"])
    o = dict(case["opts"], n=case["n"])
    p = math.radians(case["phi"])
    inside, outside = [], []
    e = math.atan(math.hypot(ta * math.cos(p), tb * math.sin(p)))
    plane = math.cos(p) * A[0] + math.sin(p) * A[1]
    for q in (0.0, 0.5, -0.5):
        inside.append(math.cos(q * e) * plane + math.sin(q * e) * A[2])
    for q in (1.6, -1.6):
        if q * e < math.pi / 2 and abs(q * e) < 1.4 and ta / tb > 0.05:
            outside.append(math.cos(q * e) * plane + math.sin(q * e) * A[2])
    outside += [A[2], -A[2]]
    r = js("surface", hyp=h, axes=A.tolist(), opts=o, probes=[position(d, o) for d in inside + outside])
    f = r["feature"]
    expect(f["type"] == "Feature" and f["geometry"]["type"] == "Polygon" and len(f["geometry"]["coordinates"]) == 2, "error surface is not a band: {}", f["geometry"]["type"])
    expect(f.get("data") == {"id": 7}, "error surface lost its plane: {}", f.get("data"))
    # the sampled rings are inscribed in the true curves
    want = girdle_area(ta, tb)
    expect(abs(r["area"] - want) < 0.1 * want, "error surface covers {} sr, the uncertainty {} sr", r["area"], want)
    expect(abs(f["properties"]["area"] - r["area"]) < 1e-9 * r["area"] + 1e-12, "recorded area {} of {}", f["properties"]["area"], r["area"])
    expect(all(r["nominalIn"]), "the nominal plane is outside of its error surface")
    n = len(inside)
    expect(r["probesIn"][:n] == [True] * n, "directions within the error are outside of the error surface: {}", r["probesIn"])
    expect(not any(r["probesIn"][n:]), "directions beyond the error (or the normal) are inside the error surface: {}", r["probesIn"])
    for k, v in (("line", {"id": 8}), ("bare", None)):
        l = r[k]
        expect(l["type"] == "Feature" and l["geometry"]["type"] == "LineString" and l.get("data") == v, "nominal plane feature {}", {a: l[a] for a in l if a != "geometry"})
        expect(l["geometry"]["coordinates"] == r["rings"]["nominal"], "nominal plane feature is another line")
    return ["overturned" if A[2][2] < 0 else "upright"] + ["%s=%s" % i for i in sorted(case["opts"].items())], oblique(A)


@check.law(st.fixed_dictionaries(dict(axes=frame, halves=halves, scale=scale, opts=layout, phi=st.floats(0, 360), alias=st.booleans(),
                                      level=st.one_of(st.none(), g.logfloat(0.3, 2), st.lists(g.logfloat(0.3, 2), min_size=1, max_size=3)))), quick=1500, thorough=30000)
def error_ellipses(case):
    A = np.array(case["axes"])
    h = hyper(case["halves"], case["scale"])
    o = dict(case["opts"], n=200, degrees=True)
    if case["level"] is not None:
        o["level"] = case["level"]
    up = A[2] if A[2][2] >= 0 else -A[2]
    levels = case["level"] if isinstance(case["level"], list) else [case["level"] or 1]
    p = math.radians(case["phi"])
    plane = math.cos(p) * A[0] + math.sin(p) * A[1]
    s = np.sqrt(h)
    half = [math.atan(l * s[2] * math.hypot(math.cos(p) / s[0], math.sin(p) / s[1])) for l in levels]
    # along either error axis the boundary is exact
    probes = [up, -up, plane, -plane]
    edges = []
    for l in levels:
        for i in (0, 1):
            t = math.atan(l * s[2] / s[i])
            for q in (0.6, 1.1):
                if q * t < 1.5:
                    edges.append((l, q < 1))
                    probes.append(math.cos(q * t) * up + math.sin(q * t) * A[i])
    r = js("ellipses", props={"covariance" if case["alias"] else "hyperbolic_axes": h, "axes": A.tolist()}, opts=o, probes=[position(d, o) for d in probes])
    expect(("many" in r) == isinstance(case["level"], list), "one ellipse per level expected for {}", case["level"])
    got = r["many"] if "many" in r else [r["one"]]
    expect(len(got) == len(levels), "{} ellipses for levels {}", len(got), levels)
    for l, e in zip(levels, got):
        f = e["feature"]
        expect(f["geometry"]["type"] == "MultiPolygon" and len(f["geometry"]["coordinates"]) == 2, "normals are {} polygons of type {}", len(f["geometry"]["coordinates"]), f["geometry"]["type"])
        want = 2 * cap_area(l * s[2] / s[0], l * s[2] / s[1])
        thin = max(s[0] / s[1], s[1] / s[0]) > 8        # coarsely sampled along its sides
        expect((0.5 if thin else 0.9) * want < e["area"] < 1.05 * want, "normals cover {} sr, the uncertainty at level {} {} sr", e["area"], l, want)
        expect(abs(f["properties"]["level"] - l) < 1e-12, "level {} recorded as {}", l, f["properties"]["level"])
        expect(f["properties"]["sheet"] == "upper" and abs(2 * f["properties"]["area"] - e["area"]) < 1e-2 * e["area"], "recorded properties {}, both areas {}", f["properties"], e["area"])
        q = e["probesIn"]
        expect(q[0] and q[1], "the normals are outside of their error ellipses: {}", q[:2])
        expect(not q[2] and not q[3], "directions in the plane are inside the error ellipse of the normal")
        for (lv, inside), hit in zip(edges, q[4:]):
            if lv == l:
                expect(hit == inside, "a direction {} the error at level {} is {} the ellipse", "within" if inside else "beyond", l, "inside" if hit else "outside")
        expect(e["again"]["geometry"]["type"] == "MultiPolygon" and np.allclose(e["again"]["geometry"]["coordinates"], f["geometry"]["coordinates"], atol=1e-9), "the second use of the ellipse function differs")
    return ["overturned" if A[2][2] < 0 else "upright", "levels" if isinstance(case["level"], list) else "level"], oblique(A)


@check.law(st.fixed_dictionaries(dict(axes=frame, hyp=st.tuples(scale, scale, scale).map(list), nominal=st.one_of(st.none(), st.booleans()), opts=layout, alias=st.booleans())),
           quick=500, thorough=10000)
def drawn_planes(case):
    o = dict(case["opts"])
    if case["nominal"] is not None:
        o["nominal"] = case["nominal"]
    h = case["hyp"]
    props = {"covariance" if case["alias"] else "hyperbolic_axes": h, "axes": case["axes"], "name": "p"}
    kids = js("grouped", props=props, opts=o)
    want = ["error"] + (["nominal"] if case["nominal"] is not False else [])
    expect([k["cls"].split()[0] if k["cls"] else "" for k in kids] == want, "a plane is drawn as {}", [k["cls"] for k in kids])
    expect(("unconstrained" in kids[0]["cls"].split()) == (h[2] > h[1]), "class {} for error axes {}", kids[0]["cls"], h)
    expect(kids[0]["datum"]["geometry"]["type"] == "Polygon" and kids[0]["datum"]["data"]["name"] == "p", "error area")
    if len(kids) > 1:
        expect(kids[1]["datum"]["geometry"]["type"] == "LineString" and kids[1]["datum"]["data"]["name"] == "p", "nominal line")
        A = np.array(case["axes"])
        for q in kids[1]["datum"]["geometry"]["coordinates"]:
            lon, lat = map(math.radians, q)
            a, b, c = math.cos(lat) * math.sin(lon), math.cos(lat) * math.cos(lon), math.sin(lat)
            if not o.get("upperHemisphere", True):
                c = -c
            d = np.array([a, c, b] if o.get("traditionalLayout", True) else [a, -b, c])
            expect(abs(d.dot(A[2])) < 1e-7, "the drawn line leaves the plane")
    return ["unconstrained" if h[2] > h[1] else "constrained"], oblique(np.array(case["axes"]))


coord = st.one_of(st.integers(-100, 100).map(float), st.floats(-1e4, 1e4))
pt = st.lists(coord, min_size=3, max_size=3)
pts = st.lists(pt, min_size=1, max_size=8)


@check.law(st.fixed_dictionaries(dict(axes=frame, pts=pts, center=pt, arg=st.one_of(st.none(), pt), mean=st.one_of(st.none(), pt), has_center=st.booleans(), extracted=st.booleans(),
                                      centered=st.booleans(), az=st.lists(st.floats(-10, 10), min_size=1, max_size=6), angles=st.lists(st.floats(-50, 50), max_size=6))), quick=2500, thorough=60000)
def plane_data(case):
    A = np.array(case["axes"])
    P = np.array(case["pts"])
    d = dict(axes=case["axes"], hyperbolic_axes=[3.0, 2.0, 1.0], color="red", in_group=True)
    if case["mean"]:
        d["mean"] = case["mean"]
    if case["has_center"]:
        d["center"] = case["center"]
    if case["extracted"]:
        d["extracted"] = case["pts"]
    if case["centered"]:
        d["centered_array"] = case["pts"]
    r = js("planeData", data=d, mean=case["arg"], azimuths=case["az"])
    want = case["arg"] or d.get("mean") or d.get("center") or (P.mean(axis=0).tolist() if case["extracted"] else None)
    tol = 1e-9 * (1 + np.abs(P).max())
    if want is None:
        expect(r.get("mean") is None, "mean {} of no data", r.get("mean"))
    else:
        expect(r.get("mean") is not None and np.abs(np.array(r.get("mean")) - want).max() <= tol, "mean {} expected {}", r.get("mean"), want)
    if case["centered"]:
        expect(r.get("centered") == case["pts"], "centred data were replaced")
    elif case["extracted"]:
        expect(r.get("centered") is not None and np.abs(np.array(r.get("centered")) - (P - np.array(want))).max() <= tol, "centred data {}", r.get("centered"))
    expect(r["lengths"] == [3.0, 2.0, 1.0] and r["axes"] == case["axes"] and r["color"] == "red" and r["inGroup"] is True, "plane lost its attributes")
    n = A[2]
    if n[2] >= 0:
        expect(abs(r["dip"][0] - math.atan2(math.hypot(n[0], n[1]), n[2])) < 1e-7, "dip {} of normal {}", r["dip"][0], n)
        if math.hypot(n[0], n[1]) > 1e-6:
            expect(abs(math.remainder(r["dip"][1] - math.atan2(n[0], n[1]), 2 * math.pi)) < 1e-9 and abs(r["dip"][1]) <= math.pi, "dip direction {} of normal {}", r["dip"][1], n)
    if abs(n[2]) > 1e-3:
        for az, got in zip(case["az"], r["apparent"]):
            t = (n[0] * math.sin(az) + n[1] * math.cos(az)) / n[2]
            expect(abs(got - math.atan(t)) < 1e-6, "apparent dip {} towards azimuth {} rad of normal {} (expected {})", got, az, n, math.atan(t))
    for a, b in zip(case["angles"], js("fixAngle", a=case["angles"])):
        expect(abs(b) <= math.pi and abs(math.remainder(a - b, 2 * math.pi)) < 1e-9, "angle {} becomes {}", a, b)
    return ["overturned" if n[2] < 0 else "upright"], oblique(A)


@check.law(st.fixed_dictionaries(dict(groups=st.lists(st.tuples(pt, st.one_of(st.none(), st.integers(1, 30))), min_size=1, max_size=6))), quick=1200, thorough=30000)
def centroids(case):
    planes = []
    tot, acc = 0, np.zeros(3)
    for c, n in case["groups"]:
        p = dict(center=c)
        if n is not None:
            p["centered_array"] = [[0, 0, 0]] * n
            tot += n
            acc += n * np.array(c)
        planes.append(p)
    r = js("centroids", planes=planes)
    C = np.array([c for c, _ in case["groups"]])
    tol = 1e-9 * (1 + np.abs(C).max())
    if tot:
        expect(np.abs(np.array(r["average"]) - acc / tot).max() <= tol, "average centre {} expected {}", r["average"], acc / tot)
    expect(np.abs(np.array(r["extrema"]) - (C.min(axis=0) + C.max(axis=0)) / 2).max() <= tol, "centre of the extent {}", r["extrema"])
    o = js("clone", obj=dict(a=1, level=[1, 2], n=50), more=dict(level=2.5))
    expect(o["c"] == dict(a=1, level=2.5, n=50) and o["same"] and o["own"], "options {}", o)
    return ["mixed" if any(n is None for _, n in case["groups"]) else "all measured"], len(planes) > 1


axis = st.tuples(st.floats(-1e3, 1e3), g.logfloat(1e-2, 1e4), st.floats(0, 800), st.floats(50, 800), st.booleans()).map(
    lambda t: [t[0], t[0] + t[1], t[2], t[2] + t[3]] if t[4] else [t[0], t[0] + t[1], t[2] + t[3], t[2]])

rightward = axis.map(lambda a: a if a[3] > a[2] else [a[0], a[1], a[3], a[2]])      # a section is drawn left to right


@check.law(st.fixed_dictionaries(dict(axes=frame, group=st.one_of(st.none(), frame), offset=pt, vp=st.floats(-7, 7), x=axis, y=axis)), quick=2500, thorough=60000)
def cross_section(case):
    data = dict(axes=case["axes"], hyperbolic_axes=[9.0, 4.0, 1.0], center=[0, 0, 0])
    group = dict(data, axes=case["group"]) if case["group"] else None
    t = js("transform", data=data, offset=case["offset"], group=group, viewpoint=case["vp"], x=case["x"], y=case["y"], ratio=None)
    m = re.match(r"^\s*translate\(([^,\s]+)[,\s]\s*([^)]+)\)\s*rotate\(([^)]+)\)\s*$", t)
    expect(m is not None, "transform {}", t)
    tx, ty, rot = map(float, m.groups())
    vp = case["vp"]
    kx = (case["x"][3] - case["x"][2]) / (case["x"][1] - case["x"][0])
    ky = (case["y"][3] - case["y"][2]) / (case["y"][1] - case["y"][0])

    def screen(p):
        return (case["x"][2] + kx * (p[0] * math.cos(vp) + p[1] * math.sin(vp) - case["x"][0]), case["y"][2] + ky * (p[2] - case["y"][0]))
    o = np.array(case["offset"])
    w = screen(o)
    tol = 1e-8 * (1 + (np.abs(o).max() + abs(case["x"][0]) + abs(case["y"][0])) * max(abs(kx), abs(ky)))
    expect(abs(tx - w[0]) <= tol and abs(ty - w[1]) <= tol, "plane at {} is drawn at {}, {} instead of {}", case["offset"], tx, ty, w)
    n = np.array((group or data)["axes"])[2]
    across = np.array([math.cos(vp), math.sin(vp), 0])
    # horizontally one step across the section: how far does the plane go down?
    if abs(n[2]) < 0.02:
        return ["vertical"], False
    if kx > 0:
        slope = -n.dot(across) / n[2]
        want = math.degrees(math.atan2(ky * slope, kx))
        expect(abs(math.remainder(rot - want, 180)) < 1e-5 + math.degrees(1e-7 * (1 + abs(ky / kx))), "plane is drawn at {} deg on screen; its trace is at {} deg", rot, want)
    return ["group" if group else "alone", "y down" if ky < 0 else "y up"], oblique(np.array((group or data)["axes"]))


@check.law(st.fixed_dictionaries(dict(pts=pts, offset=pt, vp=st.floats(-7, 7), axes=st.one_of(st.none(), frame))), quick=1500, thorough=30000)
def digitized_lines(case):
    r = js("digitized", centered=case["pts"], offset=case["offset"], viewpoint=case["vp"], axes=case["axes"])
    A = np.array(case["axes"]) if case["axes"] else np.eye(3)
    P = (np.array(case["pts"]) + np.array(case["offset"])).dot(A.T)
    c, s = math.cos(case["vp"]), math.sin(case["vp"])
    want = np.array([P[:, 0] * c + P[:, 1] * s, P[:, 2]]).T
    got = np.array(r["pts"], float)
    expect(got.shape == want.shape and np.abs(got - want).max() <= 1e-9 * (1 + np.abs(P).max()), "digitized line {} expected {}", got.tolist(), want.tolist())
    expect(r["d"] == "M", "the line is not drawn")
    return ["axes" if case["axes"] else "map"], len(case["pts"]) > 1


@check.law(st.fixed_dictionaries(dict(axes=st.one_of(frame, st.just([[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]])), group=st.one_of(st.none(), st.none(), frame), pts=pts, offset=pt, vp=st.floats(-7, 7), x=rightward, y=axis, tag=st.sampled_from(["line", "path"]),
                                      width=st.one_of(st.none(), st.floats(20, 1000)))), quick=1200, thorough=30000)
def traces(case):
    """A plane's line or digitized trace in a section: placed like the plane, with the points as far off the line as they are off the plane."""
    data = dict(axes=case["axes"], hyperbolic_axes=[9.0, 4.0, 1.0], center=[0, 0, 0], centered_array=case["pts"])
    group = dict(data, axes=case["group"]) if case["group"] else None
    r = js("apparent", data=data, group=group, offset=case["offset"], viewpoint=case["vp"], x=case["x"], y=case["y"], width=case["width"], tag=case["tag"])
    at = r["attrs"]
    w = case["width"] or 400
    expect(r["width"] == w, "width {} expected {}", r["width"], w)
    num = [re.findall(r"-?\d+\.?\d*(?:e[-+]?\d+)?", t) for t in (at["transform"], r["transform"])]
    expect(len(num[0]) == 3 and np.allclose(np.array(num[0], float), np.array(num[1], float), rtol=1e-6, atol=1e-6), "trace is placed by {}, its plane by {}", at["transform"], r["transform"])
    if case["tag"] == "line":
        expect(abs(float(at["x1"]) + w / 2) < 1e-9 * w and abs(float(at["x2"]) - w / 2) < 1e-9 * w, "line from {} to {} of a plane {} wide", at["x1"], at["x2"], w)
        return ["line"], True
    kx = (case["x"][3] - case["x"][2]) / (case["x"][1] - case["x"][0])
    ky = (case["y"][3] - case["y"][2]) / (case["y"][1] - case["y"][0])
    A = np.array((group or data)["axes"])
    P = np.array(case["pts"])
    d = at["d"]
    got = np.array([[float(v) for v in q.split(",")] for q in d.rstrip("Z").lstrip("M").split("L")])
    expect(got.shape == (len(P), 2), "{} points of {} are drawn", len(got), len(P))
    size = 1 + np.abs(P).max()
    off = P.dot(A[2])
    expect(np.abs(got[:, 1] - ky * off).max() <= 1e-8 * abs(ky) * size + 1e-9, "points {} off the plane are drawn {} pixels off its line ({} per unit)", off.tolist(), got[:, 1].tolist(), ky)
    if np.array_equal(A, np.eye(3)):
        along = P[:, 0] * math.cos(case["vp"]) + P[:, 1] * math.sin(case["vp"])
        expect(np.abs(got[:, 0] - kx * along).max() <= 1e-8 * abs(kx) * size + 1e-9, "points {} along the section are drawn at {} pixels ({} per unit)", along.tolist(), got[:, 0].tolist(), kx)
    return ["trace", "group" if group else "alone"], len(P) > 1


level_frame = st.tuples(st.floats(0, 360), st.booleans(), st.booleans()).map(lambda t: [
    [math.cos(math.radians(t[0])), math.sin(math.radians(t[0])), 0.0],
    [-math.sin(math.radians(t[0])) * (-1 if t[1] else 1), math.cos(math.radians(t[0])) * (-1 if t[1] else 1), 0.0], [0.0, 0.0, -1.0 if t[2] else 1.0]])


def band(node):
    """(translate x, y, rotation, path points) of a drawn error band."""
    t = node["tree"]
    m = re.match(r"^\s*translate\(([^,\s]+)[,\s]\s*([^)]+)\)\s*rotate\(([^)]+)\)\s*$", t["attrs"]["transform"])
    expect(m is not None, "transform {}", t["attrs"].get("transform"))
    paths = [k for k in t["kids"] if "hyperbola" in k["attrs"].get("class", "").split()]
    expect(len(paths) == 1, "{} error bands are drawn for a plane", len(paths))
    d = paths[0]["attrs"]["d"]
    expect(d.startswith("M") and d.endswith("Z"), "outline {}", d[:40])
    P = np.array([[float(v) for v in q.split(",")] for q in d[1:-1].split("L")])
    return [float(v) for v in m.groups()] + [P], t


def opacity(node):
    p = [k for k in node["tree"]["kids"] if "hyperbola" in k["attrs"].get("class", "").split()][0]["attrs"]
    f, s = (re.match(r"^(.*)@([-0-9.e]+)$", p.get(k, "")) for k in ("fill", "stroke"))
    expect(f is not None and s is not None and f.group(1) == s.group(1) == "red", "a red plane is drawn in {} and {}", p.get("fill"), p.get("stroke"))
    return float(f.group(2))


@check.law(st.fixed_dictionaries(dict(axes=st.one_of(frame, level_frame), hyp=st.tuples(scale, g.logfloat(1e-3, 1), g.logfloat(1e-4, 1)).map(lambda t: [t[0], t[0] * t[1], t[0] * t[1] * t[2]]),
                                      signs=st.lists(st.sampled_from([-1, 1]), min_size=3, max_size=3), offset=pt, vp=st.floats(-7, 7), x=rightward, y=axis,
                                      width=st.one_of(st.none(), st.floats(20, 1000)), exaggerate=st.one_of(st.none(), st.booleans()), nominal=st.booleans(), twice=st.booleans(),
                                      # settings the same planes were drawn with before
                                      before=st.lists(st.fixed_dictionaries(dict(width=st.floats(20, 1000), exaggerate=st.booleans())), max_size=2))), quick=1500, thorough=30000)
def section_errors(case):
    """Error bands in a cross-section: placed like the plane, open by the error along the section, whatever the signs of the axes."""
    A = np.array(case["axes"])
    if math.hypot(A[0][0], A[0][1]) < 1e-3 or abs(A[2][2]) < 0.02:
        raise Skip("vertical axis")
    B = A * np.array(case["signs"])[:, None]
    d = dict(hyperbolic_axes=case["hyp"], center=[0, 0, 0], color="red")
    off = case["offset"]
    wide = dict(d, axes=A.tolist(), hyperbolic_axes=[case["hyp"][0], case["hyp"][1], case["hyp"][2] * 4])
    both = js("section", datas=[dict(data=dict(d, axes=A.tolist()), offset=off), dict(data=dict(d, axes=B.tolist()), offset=off), dict(data=dict(d, axes=A.tolist()), offset=[off[0], off[2]]), dict(data=wide, offset=off)], viewpoint=case["vp"], x=case["x"], y=case["y"],
              width=case["width"], exaggerate=case["exaggerate"], nominal=case["nominal"], twice=case["twice"], before=case["before"])
    (tx, ty, rot, P), t = band(both[0])
    (ux, uy, rot2, Q), _ = band(both[1])
    w = case["width"] or 400
    ex = case["exaggerate"] is not False
    expect(both[0]["settings"] == [w, ex, case["nominal"]], "settings {}", both[0]["settings"])
    kx = (case["x"][3] - case["x"][2]) / (case["x"][1] - case["x"][0])
    ky = (case["y"][3] - case["y"][2]) / (case["y"][1] - case["y"][0])
    o, vp = np.array(case["offset"]), case["vp"]
    s = case["x"][2] + kx * (o[0] * math.cos(vp) + o[1] * math.sin(vp) - case["x"][0]), case["y"][2] + ky * (o[2] - case["y"][0])
    tol = 1e-7 * (1 + (np.abs(o).max() + abs(case["x"][0]) + abs(case["y"][0])) * max(abs(kx), abs(ky)))
    expect(abs(tx - s[0]) <= tol and abs(ty - s[1]) <= tol, "band drawn at {}, {}; the plane is at {}", tx, ty, s)
    n = A[2]
    slope = -(n[0] * math.cos(vp) + n[1] * math.sin(vp)) / n[2]
    want = math.degrees(math.atan2(ky * slope, kx))
    expect(abs(math.remainder(rot - want, 180)) < 1e-5 + math.degrees(1e-7 * (1 + abs(ky / kx))), "band is rotated by {} deg on screen; the plane's trace is at {} deg", rot, want)
    expect(abs(math.remainder(rot - rot2, 180)) < 1e-5 + math.degrees(1e-7 * (1 + abs(ky / kx))) and P.shape == Q.shape, "band depends on the signs of the axes")
    top = np.abs(P).max(axis=0)
    expect(np.all(np.abs(P - Q).max(axis=0) <= 1e-6 * (1 + top)), "error band {} depends on the signs of the axes: {}", P.tolist(), Q.tolist())
    # symmetric about the plane and about its centre
    for M in (P * [-1, 1], P * [1, -1]):
        for q in M:
            expect(np.any(np.all(np.abs(P - q) <= 1e-6 * (1 + top), axis=1)), "the error band is not symmetric: {}", P.tolist())
    expect(abs(top[0] - w) <= 1e-6 * w, "band of width {} reaches {} pixels", w, top[0])
    b = math.sqrt(case["hyp"][2])
    mid = np.abs(P[np.abs(P[:, 0]) < 1e-9 * w][:, 1])
    k = abs(ky) if ex else abs(kx)
    expect(len(mid) >= 2 and np.abs(mid - b * k).max() <= 1e-6 * (1 + b * k), "half-width {} pixels at the centre, the error is {}", mid, b * k)
    if abs(n[2]) > 1 - 1e-12:
        f = vp - math.atan2(A[0][1], A[0][0])
        a = 1 / math.hypot(math.cos(f) / math.sqrt(case["hyp"][0]), math.sin(f) / math.sqrt(case["hyp"][1]))
        edge = np.abs(P[np.abs(np.abs(P[:, 0]) - w) < 1e-6 * w][:, 1])
        e = b / a * w / kx * k
        expect(len(edge) == 4 and np.abs(edge - e).max() <= 1e-6 * (1 + e), "the band opens to {} pixels at {} pixels from the centre, the error to {}", edge, w, e)
    # a place within the section can be given directly
    (fx, fy, _, _), _ = band(both[2])
    s = case["x"][2] + kx * (off[0] - case["x"][0]), case["y"][2] + ky * (off[2] - case["y"][0])
    expect(abs(fx - s[0]) <= tol and abs(fy - s[1]) <= tol, "band for {} in the section is drawn at {}, {} instead of {}", [off[0], off[2]], fx, fy, s)
    # in its plane's color, fainter for a larger error
    al = [opacity(b) for b in (both[0], both[3])]
    expect(al[1] <= al[0] + 1e-9 and (al[1] < al[0] or not 0.1 + 1e-6 < al[0] < 0.8 - 1e-6), "opacity {} of an error, {} of one twice as large", al[0], al[1])
    if abs(n[2]) > 1 - 1e-12:
        e = 2 * math.degrees(math.atan2(b, a))
        if abs(e - 5) > 1e-6:
            expect((abs(al[0] - 0.1) < 1e-9) == (e > 5), "opacity {} for an error of {} degrees", al[0], e)
    kids = t["kids"]
    expect(len([q for q in kids if q["tag"] == "mask"]) == 1, "masks {}", [q["tag"] for q in kids])
    if not case["before"]:
        for q in [q for q in kids if q["tag"] == "mask"] + [q for q in [q for q in kids if q["tag"] == "mask"][0]["kids"] if q["tag"] == "rect"]:
            mx, my, mw, mh = (float(q["attrs"][v]) for v in ("x", "y", "width", "height"))
            expect(0 < mw <= w * (1 + 1e-9) and abs(mx + mw / 2) <= 1e-6 * w and abs(my + mh / 2) <= 1e-6 * w and mh > 0, "the visible part ({}, {}, {} x {}) is not around the plane", mx, my, mw, mh)
    expect(len([q for q in kids if q["tag"] == "line"]) == (1 if case["nominal"] else 0), "nominal lines")
    mask = [q for q in kids if q["tag"] == "mask"][0]["attrs"]["id"]
    expect(all(q["attrs"].get("mask") == "url(#%s)" % mask for q in kids if q["tag"] in ("path", "line")), "the band is not masked by its own mask")
    return ["level" if abs(n[2]) > 1 - 1e-12 else "dipping", "exaggerated" if ex else "true angles"] + (["redrawn"] if case["before"] else []), oblique(A) or abs(n[2]) > 1 - 1e-12
