"""C21: the web frontend's uncertainty curves are the error surfaces of the plane."""
from ..core import Check, Skip, expect
from .. import gens as g, node
from ..gens import np, st
import json
import math

from attitude import Orientation, ReconstructedPlane

CORE = node.bundle("core")

check = Check("C21", rule=(
    "Drawn error-surface axes over eight decades with ratios down to 1e-6, drawn (orthonormal) plane axes incl. overturned, level and vertical, "
    "all layout, hemisphere, sheet, level, point-count and angle-unit options; curves computed by the bundled TypeScript sources, mapped back to "
    "directions and compared with the quadratic cones. Also driven with the JSON mapping of drawn Python fits. Non-trivial: neither plane nor errors aligned with the coordinate axes."),
    assumptions=["the sources are bundled with esbuild; third-party modules come from the copies vendored in the repository",
                 "point counts are even (odd counts are not used by the frontend)",
                 "the npm package `attitude` (unit quaternions) is a stand-in, its conventions inferred from their use"])


def js(op, **kw):
    return node.connect(CORE, "core_ops.js").call(op, **kw)


frame = st.one_of(
    st.tuples(g.strikes, g.dips, g.inplane).map(lambda t: g.plane_frame(*t).tolist()),
    st.integers(0, 10 ** 6).map(lambda s: rotation(s).tolist()),
    st.just(np.eye(3).tolist()))


def rotation(seed):
    q, r = np.linalg.qr(np.random.RandomState(seed).randn(3, 3))
    return q


hyp = st.one_of(
    st.tuples(g.logfloat(1e-2, 1e6), g.logfloat(1, 1e3), g.logfloat(1e-6, 10)).map(lambda t: [t[0] * t[1], t[0], t[0] * t[2]]),
    st.tuples(g.logfloat(1e-4, 1e4), g.logfloat(1e-4, 1e4), g.logfloat(1e-4, 1e4)).map(list))
opts = st.fixed_dictionaries({}, optional=dict(
    n=st.sampled_from([4, 10, 20, 50, 100, 200, 400]), upperHemisphere=st.booleans(), traditionalLayout=st.booleans(), degrees=st.booleans()))


def directions(P, o, traditional=True):
    """Directions (east, north, up) of plotted positions."""
    P = np.array(P, float)
    expect(P.ndim == 2 and P.shape[1] == 2 and np.all(np.isfinite(P)), "positions {}", P.tolist()[:3])
    if o.get("degrees"):
        P = np.radians(P)
    lon, lat = P.T
    expect(np.all(np.abs(lon) <= math.pi + 1e-12) and np.all(np.abs(lat) <= math.pi / 2 + 1e-12), "positions are off the sphere")
    a, b, c = np.cos(lat) * np.sin(lon), np.cos(lat) * np.cos(lon), np.sin(lat)
    if not o.get("upperHemisphere", True):
        c = -c
    if o.get("traditionalLayout", traditional):
        return np.array([a, c, b]).T
    return np.array([a, -b, c]).T


def ring(t, n, what, other=None):
    """Parameters t of the curve's points go round exactly once, without big steps."""
    expect(len(t) == n, "{}: {} points, {} requested", what, len(t), n)
    d = np.angle(np.exp(1j * np.diff(np.append(t, t[0]))))
    if abs(d.sum()) < 1:
        d = d[np.abs(d) > 1e-9]
    expect(abs(abs(d.sum()) - 2 * math.pi) < 1e-6, "{}: the curve goes round {} times", what, d.sum() / 2 / math.pi)
    big = math.acos(max(-1, 1 - 4 / n))
    if other is not None and np.abs(d).max() > 2 * big:   # even in either parametrisation of the curve
        d = np.angle(np.exp(1j * np.diff(np.append(other, other[0]))))
    expect(np.abs(d).max() <= 2 * big + 1e-6, "{}: a step of {} deg between {} points", what, math.degrees(np.abs(d).max()), n)
    expect(np.all(d * np.sign(d.sum()) > -1e-6), "{}: the curve turns back", what)


def tilted(case):
    A = np.array(case["axes"])
    return bool(np.abs(A).max() < 0.999) and len(set(case["hyp"])) == 3


@check.law(st.fixed_dictionaries(dict(hyp=hyp, axes=frame, opts=opts, sheet=st.sampled_from(["upper", "lower", "nominal", None]))), quick=6000, thorough=150000)
def plane_curves(case):
    o = dict(case["opts"])
    if case["sheet"]:
        o["sheet"] = case["sheet"]
    A, h = np.array(case["axes"]), np.array(case["hyp"])
    D = directions(js("planeErrors", hyp=case["hyp"], axes=case["axes"], opts=o), o)
    x, y, z = D.dot(A.T).T
    s = np.sqrt(h)
    u, v, w = x / s[0], y / s[1], z / s[2]
    r = np.hypot(u, v)
    tol = 1e-7 * max(1, s.max() / s.min())
    sheet = case["sheet"] or "nominal"
    if sheet == "nominal":
        expect(np.abs(z).max() < 1e-7, "nominal plane leaves the plane by {}", np.abs(z).max())
    else:
        # cancellation: directions are good to ~1e-8, the cone is steep when the plane is nearly exact
        expect(np.all(np.abs(z) * np.hypot(x, y) >= 0) and np.all(np.abs(np.arctan2(np.abs(z), np.hypot(x, y)) - np.arctan2(s[2] * r, np.hypot(x, y))) < 1e-7),
               "{} sheet is not on the error surface: {} deg off", sheet, math.degrees(np.abs(np.arctan2(np.abs(z), np.hypot(x, y)) - np.arctan2(s[2] * r, np.hypot(x, y))).max()))
        if abs(A[2][2]) > 1e-9 and s[2] * r.min() > 1e-6:
            up = z * np.sign(A[2][2])
            side = -1 if (sheet == "upper") == o.get("upperHemisphere", True) else 1
            expect(np.all(up * side > 0), "{} sheet is on the wrong side of the plane", sheet)
    keep = np.hypot(x, y) > 1e-6
    if tol < 1e-3 and keep.all():
        ring(np.arctan2(v, u), o.get("n", 100), "plane")
    return [sheet, "n=%d" % o.get("n", 100), "overturned" if A[2][2] < 0 else "upright"] + sorted(k for k in o if o[k] is True or o[k] is False), tilted(case)


@check.law(st.fixed_dictionaries(dict(hyp=hyp, axes=frame, opts=opts, sheet=st.sampled_from(["upper", "lower", None]),
                                      level=st.one_of(st.none(), g.logfloat(0.1, 10)))), quick=6000, thorough=150000)
def normal_curves(case):
    o = dict(case["opts"])
    if case["sheet"]:
        o["sheet"] = case["sheet"]
    level = case["level"] or 1.0
    if case["level"]:
        o["level"] = level
    A, h = np.array(case["axes"]), np.array(case["hyp"])
    D = directions(js("normalErrors", hyp=case["hyp"], axes=case["axes"], opts=o), o)
    x, y, z = D.dot(A.T).T
    s = np.sqrt(h)
    u, v = x * s[0] / s[2] / level, y * s[1] / s[2] / level
    # position of the point on the cone, from its horizontal part
    phi = np.arctan2(v, u)
    rho = level * s[2] * np.hypot(np.cos(phi) / s[0], np.sin(phi) / s[1])
    got = np.arctan2(np.hypot(x, y), np.abs(z))
    expect(np.abs(got - np.arctan(rho)).max() < 1e-6 * max(1.0, (s[:2].max() / s[:2].min()) ** 2 * 1e-3),
           "normals are {} deg from the pole, the error surface {}", math.degrees(got[0]), math.degrees(math.atan(rho[0])))
    side = 1 if case["sheet"] in ("upper", None) else -1
    expect(np.all(z * side > -1e-7), "{} sheet of normals points the other way", case["sheet"])
    if np.hypot(x, y).min() > 1e-5 and s[:2].max() / s[:2].min() < 1e3:
        ring(phi, o.get("n", 100), "normals", np.arctan2(v / s[0], u / s[1]))
    return [case["sheet"] or "default", "level" if case["level"] else "level 1", "overturned" if A[2][2] < 0 else "upright"], tilted(case)


@check.law(st.fixed_dictionaries(dict(hyp=hyp, axes=frame, opts=opts)), quick=1500, thorough=40000)
def combined(case):
    o = dict(case["opts"])
    got = js("combinedErrors", hyp=case["hyp"], axes=case["axes"], opts=o)
    expect(sorted(got) == ["lower", "nominal", "upper"], "combined errors have {}", sorted(got))
    o["degrees"] = True
    for k in got:
        want = js("planeErrors", hyp=case["hyp"], axes=case["axes"], opts=dict(o, sheet=k))
        expect(len(want) == len(got[k]) and np.allclose(directions(want, o), directions(got[k], o), atol=1e-9), "combined {} curve is not the {} curve of the plane", k, k)
    return ["degrees" if case["opts"].get("degrees") else "default"], tilted(case)


sv = st.tuples(g.logfloat(1e-6, 1e6), g.logfloat(1e-6, 1e6), g.logfloat(1e-6, 1e6)).map(list)
vec = st.lists(st.one_of(st.just(0.0), st.floats(-1e3, 1e3).map(lambda x: 0.0 if abs(x) < 1e-6 else x)), min_size=3, max_size=3)


@check.law(st.fixed_dictionaries(dict(sv=sv, other=sv, axes=frame, v=vec.filter(any), m=st.lists(vec, min_size=3, max_size=3), opts=opts)), quick=2500, thorough=60000)
def axes_and_lengths(case):
    A = np.array(case["axes"])
    s = np.array(case["sv"])
    M = A.T * s                     # one principal axis per column, with its length
    got, unit = js("deconvolve", axes=M.tolist())
    expect(np.allclose(got, s, rtol=1e-9, atol=0) and np.allclose(unit, A.T, atol=1e-9), "lengths {} and axes {} of {}", got, unit, M.tolist())
    back = np.array(js("convolve", axes=unit, sv=got))
    expect(np.all(np.abs(back - M) <= 1e-9 * s), "lengths and axes do not recombine: {} from {}", back.tolist(), M.tolist())
    t = np.array(case["other"])
    re = np.array(js("convolve", axes=M.tolist(), sv=t.tolist()))
    expect(np.all(np.abs(re - A.T * t) <= 1e-9 * t), "axes with new lengths {}", re.tolist())
    v = np.array(case["v"])
    b = js("basics", v=case["v"], m=case["m"], opts=case["opts"])
    expect(abs(b["norm"] - np.linalg.norm(v)) <= 1e-12 * np.linalg.norm(v), "length of {} is {}", v, b["norm"])
    expect(b["t"] == np.array(case["m"]).T.tolist(), "transpose")
    d = directions([b["sph"]], case["opts"], traditional=False)[0]
    expect(np.abs(d - v / np.linalg.norm(v)).max() < 2e-8, "position {} is direction {}, not {}", b["sph"], d, v)
    return ["traditional" if case["opts"].get("traditionalLayout") else "plain"], np.count_nonzero(v) > 1


@check.law(st.fixed_dictionaries(dict(strike=g.strikes, dip=g.dips, rake=g.inplane, minError=st.floats(0.01, 170), maxError=st.floats(0.01, 170))), quick=500, thorough=10000)
def errors_from_angles(case):
    r = js("reconstruct", **case)
    h = np.array(r["hyp"])
    want = [1 / math.tan(math.radians(case["minError"]) / 2) ** 2, 1 / math.tan(math.radians(case["maxError"]) / 2) ** 2, 1]
    expect(np.allclose(h, want, rtol=1e-9, atol=0), "error axes {} of errors {}", h, case)
    A = np.array(r["axes"], float)
    expect(A.shape == (3, 3) and np.abs(A.dot(A.T) - np.eye(3)).max() < 1e-9, "axes {} are not orthonormal", A.tolist())
    down, along, n = g.plane_frame(case["strike"], case["dip"], 0.0)
    expect(np.abs(A[2] - n).max() < 1e-9, "normal {} of strike {}, dip {}", A[2], case["strike"], case["dip"])
    q = math.radians(case["rake"])
    expect(abs(abs(A[1].dot(math.cos(q) * along + math.sin(q) * down)) - 1) < 1e-9, "second axis {} is not at rake {}", A[1], case["rake"])
    return [], case["minError"] != case["maxError"]


clouds = g.frames(sizes=g.sizes_small, max_offset=1e3, size_range=(1, 1e3), min_gap=1.05, max_gap=30, min_ratio=0.003, max_ratio=0.15)


@check.law(st.fixed_dictionaries(dict(c=clouds, traditional=st.booleans(), upper=st.booleans())), quick=600, thorough=15000)
def python_fit_to_frontend(case):
    fit = Orientation(g.build(case["c"]))
    m = json.loads(json.dumps(fit.to_mapping()))
    A, h = np.array(m["axes"]), np.array(m["hyperbolic_axes"])
    if not h.min() > 0 or h[2] > 0.3 * h[1]:
        raise Skip("unconstrained")
    o = dict(n=200, traditionalLayout=case["traditional"], upperHemisphere=case["upper"])
    D = directions(js("normalErrors", hyp=m["hyperbolic_axes"], axes=m["axes"], opts=o), o)
    n = np.asarray(fit.normal, float)
    n = n / np.linalg.norm(n)
    a = np.degrees(np.arctan2(np.linalg.norm(np.cross(D, n), axis=1), np.abs(D.dot(n))))
    lo, hi = sorted(fit.angular_errors())
    # exact at the ends of the two error axes, which the curve passes through or near
    expect(abs(a.max() - hi) < 0.02 * hi + 1e-6 and abs(a.min() - lo) < 0.02 * hi + 1e-6, "frontend draws errors {} and {} where Python reports {}, {}", a.min(), a.max(), lo, hi)
    P = directions(js("planeErrors", hyp=m["hyperbolic_axes"], axes=m["axes"], opts=dict(o)), o)
    expect(np.abs(P.dot(n)).max() < 1e-6, "the frontend's nominal plane is not the fitted plane")
    for k in ("upper", "lower"):
        E = directions(js("planeErrors", hyp=m["hyperbolic_axes"], axes=m["axes"], opts=dict(o, sheet=k)), o)
        e = np.degrees(np.arcsin(np.clip(np.abs(E.dot(n)), 0, 1)))
        expect(abs(e.max() - hi) < 0.02 * hi + 1e-6, "frontend's {} sheet opens to {} where Python reports {}", k, e.max(), hi)
    return ["n=%d" % case["c"]["n"]], True


@check.law(st.fixed_dictionaries(dict(strike=g.strikes, dip=g.dips, rake=g.inplane, a=st.floats(0.05, 120), k=st.floats(0.05, 1), traditional=st.booleans(), upper=st.booleans())), quick=500, thorough=10000)
def python_plane_to_frontend(case):
    """The exported mapping of a reconstructed plane shows the errors it was given (as full opening angles)."""
    lo, hi = case["a"] * case["k"], case["a"]
    p = ReconstructedPlane(case["strike"], case["dip"], case["rake"], lo, hi)
    m = json.loads(json.dumps(p.to_mapping()))
    o = dict(n=400, traditionalLayout=case["traditional"], upperHemisphere=case["upper"])
    n = np.asarray(p.normal, float)
    D = directions(js("normalErrors", hyp=m["hyperbolic_axes"], axes=m["axes"], opts=o), o)
    a = 2 * np.degrees(np.arctan2(np.linalg.norm(np.cross(D, n), axis=1), np.abs(D.dot(n))))
    expect(abs(a.max() - hi) < 0.02 * hi + 1e-5 and abs(a.min() - lo) < 0.02 * hi + 1e-5, "frontend draws errors {} and {} for a plane with {}, {}", a.min(), a.max(), lo, hi)
    for k in ("upper", "lower"):
        E = directions(js("planeErrors", hyp=m["hyperbolic_axes"], axes=m["axes"], opts=dict(o, sheet=k)), o)
        e = 2 * np.degrees(np.arcsin(np.clip(np.abs(E.dot(n)), 0, 1)))
        expect(abs(e.max() - hi) < 0.02 * hi + 1e-5 and abs(e.min() - lo) < 0.02 * hi + 1e-5, "frontend's {} sheet opens to {} and {} for a plane with {}, {}", k, e.min(), e.max(), lo, hi)
    return [], lo < 0.9 * hi
