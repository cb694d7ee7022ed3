"""C18: coordinate conversions and vector helpers."""
from ..core import Check, Skip, expect
from .. import gens as g
from ..gens import np, st
import math

import mplstereonet.stereonet_math as M

from attitude import coordinates as co
from attitude.coordinates import rotations as rot
from attitude.geom import util as u, axis_aligned_transforms
from attitude.geom.transform import rotate_2D
from attitude import stereonet
from attitude.error.ellipse import ellipse as covariance_ellipse

check = Check("C18", rule=(
    "Drawn vectors over twelve decades with exact zeros, parallel, opposite and nearly parallel pairs, drawn point sets, positions "
    "on the sphere including the poles; each result compared with an elementary formula or with its inverse. "
    "Non-trivial: not aligned with a coordinate axis."),
    assumptions=["vector components are zero or between 1e-6 and 1e6 in magnitude (no under- or overflow of squares)"])

comp = st.one_of(st.just(0.0), st.integers(-5, 5).map(float), st.floats(-10, 10).map(lambda x: 0.0 if abs(x) < 1e-6 else x),
                 st.tuples(st.sampled_from([-1, 1]), g.logfloat(1e-6, 1e6)).map(lambda t: t[0] * t[1]))
vec3 = st.lists(comp, min_size=3, max_size=3).filter(lambda v: any(v))
vec2 = st.lists(comp, min_size=2, max_size=2).filter(lambda v: any(v))
pairs = st.one_of(
    st.tuples(vec3, vec3),
    st.tuples(vec3, st.tuples(st.sampled_from([-1, 1]), g.logfloat(1e-3, 1e3))).map(lambda t: (t[0], [t[1][0] * t[1][1] * x for x in t[0]])),
    st.tuples(vec3, vec3, g.logfloat(1e-12, 1e-2), st.sampled_from([-1, 1])).map(
        lambda t: (t[0], [t[3] * x + t[2] * max(map(abs, t[0])) / max(map(abs, t[1])) * y for x, y in zip(t[0], t[1])])))


def oblique(v):
    return sum(1 for x in v if x) > 1


@check.law(st.fixed_dictionaries(dict(p=pairs, s=g.logfloat(1e-3, 1e3))), quick=8000, thorough=200000)
def angles(case):
    a, b = map(np.array, case["p"])
    if not np.any(b):
        raise Skip("zero vector")
    want = math.atan2(np.linalg.norm(np.cross(a / np.linalg.norm(a), b / np.linalg.norm(b))), float(a.dot(b) / np.linalg.norm(a) / np.linalg.norm(b)))
    t = 1e-7
    for x, y, w in ((a, b, want), (b, a, want), (a * case["s"], b, want), (-a, b, math.pi - want), (a, a, 0.0), (a, -a * case["s"], math.pi)):
        got = float(u.angle(x, y))
        expect(abs(got - w) <= t, "angle({}, {}) = {}, expected {}", x.tolist(), y.tolist(), got, w)
        c = float(u.angle(x, y, cos=True))
        expect(abs(c - math.cos(w)) <= 1e-12 and abs(c) <= 1, "cosine {} of angle {}", c, w)
    v = np.asarray(u.unit_vector(a))
    expect(np.abs(v * np.linalg.norm(a) - a).max() <= 1e-12 * np.linalg.norm(a) and abs(np.linalg.norm(v) - 1) < 1e-12, "unit vector {} of {}", v, a)
    return ["acute" if want < math.pi / 2 else "obtuse"] + (["parallel"] if want < 1e-6 else ["opposite"] if want > math.pi - 1e-6 else []), oblique(a)


@check.law(st.fixed_dictionaries(dict(v=st.one_of(vec3, vec2))), quick=3000, thorough=60000)
def perpendicular(case):
    v = np.array(case["v"])
    keep = v.copy()
    p = np.asarray(u.perpendicular_vector(v), float)
    expect(p.shape == v.shape and np.all(np.isfinite(p)) and np.any(p), "perpendicular to {} is {}", v, p)
    expect(abs(p.dot(v)) <= 1e-12 * np.linalg.norm(p) * np.linalg.norm(v), "{} is not perpendicular to {}", p, v)
    expect(np.array_equal(v, keep), "argument changed")
    return ["%dd" % len(v)], oblique(v)


@check.law(st.fixed_dictionaries(dict(p=pairs)), quick=5000, thorough=100000)
def rotation_between(case):
    a, b = map(np.array, case["p"])
    if not np.any(b):
        raise Skip("zero vector")
    R = np.asarray(rot.transform(a, b), float)
    a1, b1 = a / np.linalg.norm(a), b / np.linalg.norm(b)
    expect(R.shape == (3, 3) and np.abs(R.dot(R.T) - np.eye(3)).max() < 1e-9 and np.linalg.det(R) > 0, "not a rotation: {}", R.tolist())
    expect(np.abs(R.dot(a1) - b1).max() < 3e-7, "rotation from {} to {} gives {}", a, b, (R.dot(a1) * np.linalg.norm(b)))
    # the shortest one: its trace is that of the angle between them
    expect(abs(np.trace(R) - 1 - 2 * a1.dot(b1)) < 1e-6, "rotates by more than the angle between the vectors")
    s = np.cross(a1, b1)
    if np.linalg.norm(s) > 1e-3:
        expect(np.abs(R.dot(s) - s).max() < 1e-6, "the common perpendicular is not kept")
    return ["generic" if np.linalg.norm(s) > 1e-6 else "parallel" if a1.dot(b1) > 0 else "opposite"], oblique(a)


@check.law(st.fixed_dictionaries(dict(pts=st.lists(vec3, min_size=1, max_size=12), off=vec3)), quick=4000, thorough=80000)
def spherical_and_back(case):
    P = np.array(case["pts"], float)            # n x 3
    keep = P.copy()
    S = np.asarray(co.spherical(P.T), float)
    expect(S.shape == (len(P), 3), "spherical coordinates have shape {}", S.shape)
    expect(np.array_equal(P, keep), "argument changed")
    r, th, ph = S.T
    R = np.linalg.norm(P, axis=1)
    expect(np.all(np.abs(r - R) <= 1e-12 * R), "radii {}", r)
    expect(np.all((th >= 0) & (th <= math.pi)) and np.all(np.abs(ph) <= math.pi), "polar angle or azimuth out of range")
    expect(np.all(np.abs(th - np.arctan2(np.hypot(P[:, 0], P[:, 1]), P[:, 2])) < 1e-7), "angle from vertical {}", th)
    h = np.hypot(P[:, 0], P[:, 1]) > 0
    d = np.angle(np.exp(1j * (ph - np.arctan2(P[:, 1], P[:, 0]))))
    expect(np.all(np.abs(d[h]) < 1e-9), "azimuth {}", ph)
    B = np.array(co.cartesian(S), float).T
    expect(B.shape == P.shape and np.all(np.abs(B - P).max(axis=1) <= 2e-7 * R), "round trip {} -> {}", P.tolist(), B.tolist())
    S2 = np.asarray(co.spherical(np.array(co.cartesian(S))), float)
    expect(np.all(np.abs(S2[:, 0] - r) <= 1e-9 * r) and np.all(np.abs(S2[:, 1] - th) < 1e-6), "spherical -> cartesian -> spherical")
    # centring
    for X in (P, P + np.array(case["off"]), P.tolist()):
        C = np.asarray(co.centered(X), float)
        X = np.asarray(X, float)
        m = 1e-12 * (1 + np.abs(X).max())
        expect(C.shape == X.shape and np.all(np.abs(C.mean(axis=0)) <= m), "centred points average to {}", C.mean(axis=0))
        expect(np.abs((C - C[0]) - (X - X[0])).max() <= m, "centring moved the points relative to each other")
    return ["n=1" if len(P) == 1 else "n>1"] + (["pole"] if not h.all() else []), any(oblique(v) for v in case["pts"])


@check.law(st.fixed_dictionaries(dict(plunge=g.angles(0, 90, special=(0, 30, 45, 90, 1e-3)), bearing=g.strikes, lon=st.floats(-math.pi, math.pi),
                                      lat=st.one_of(st.floats(-math.pi / 2, math.pi / 2), st.sampled_from([-math.pi / 2, 0.0, math.pi / 2])),
                                      many=g.mostly(st.integers(1, 5), st.integers(6, 1500)))), quick=4000, thorough=80000)
def stereonet_positions(case):
    def vec(lon, lat):
        return np.array([math.cos(lat) * math.cos(lon), math.cos(lat) * math.sin(lon), math.sin(lat)])

    def flat(t):
        return float(np.ravel(t[0])[0]), float(np.ravel(t[1])[0])
    # a line on the stereonet, as a direction east/north/up
    lon, lat = flat(M.line(case["plunge"], case["bearing"]))
    p, b = math.radians(case["plunge"]), math.radians(case["bearing"])
    want = np.array([math.cos(p) * math.sin(b), math.cos(p) * math.cos(b), -math.sin(p)])
    got = vec(*flat(rot.from_stereonet(lon, lat)))
    expect(np.abs(got - want).max() < 1e-6, "line plunging {} towards {} becomes {}, expected {}", case["plunge"], case["bearing"], got, want)
    # the opposite (upward) direction, for poles
    sc = np.ravel(np.asarray(stereonet.sph2cart(lon, lat), float))
    expect(np.abs(sc + want).max() < 1e-6, "upward direction {} expected {}", sc, -want)
    q = flat(rot.to_stereonet(*flat(rot.from_stereonet(lon, lat))))
    expect(np.abs(vec(*q) - vec(lon, lat)).max() < 1e-6, "to_stereonet does not undo from_stereonet")
    L, B = case["lon"], case["lat"]
    e = flat(rot.to_stereonet(L, B))
    v, w = vec(L, B), vec(*e)
    expect(np.abs(w - np.array([-v[2], v[0], v[1]])).max() < 1e-6, "direction {} on the stereonet is {}", v, w)
    expect(np.abs(vec(*flat(rot.from_stereonet(*e))) - v).max() < 1e-6, "from_stereonet does not undo to_stereonet")
    k = np.arange(case["many"]) * 0.1
    c = np.asarray(rot.cartesian(L + k, B * np.cos(k)), float)
    expect(c.shape == (3, case["many"]) and np.abs(c - np.array([vec(L + x, B * math.cos(x)) for x in k]).T).max() < 1e-12, "cartesian positions")
    T = np.asarray(rot.stereonet_transformation(), float)
    expect(np.abs(T.dot([1, 0, 0]) - [0, 0, 1]).max() < 1e-12 and np.abs(T.dot(T) - np.eye(3)).max() < 1e-12, "stereonet transformation")
    return ["pole" if abs(B) == math.pi / 2 else "inside"], 0 < case["plunge"] < 90


@check.law(st.fixed_dictionaries(dict(a=st.floats(-10, 10), b=st.floats(-10, 10), v=vec2, w=vec3, m=st.lists(vec3, min_size=3, max_size=3), n=st.integers(3, 6), k=st.integers(2, 60))),
           quick=3000, thorough=60000)
def matrices(case):
    A, B = np.asarray(rotate_2D(case["a"])), np.asarray(rotate_2D(case["b"]))
    expect(np.abs(A.dot(B) - rotate_2D(case["a"] + case["b"])).max() < 1e-12, "rotations do not add")
    v = np.array(case["v"])
    w = A.dot(v)
    z = complex(*v) * complex(math.cos(case["a"]), math.sin(case["a"]))
    expect(np.abs(w - [z.real, z.imag]).max() <= 1e-12 * np.linalg.norm(v), "rotation by {} turns {} into {}", case["a"], v, w)
    w = np.array(case["w"])
    expect(np.array_equal(u.augment(w), list(w) + [1.0]) and np.array_equal(u.vector(*case["w"]), w), "augment / vector")
    c = np.asarray(u.column(w))
    expect(c.shape == (3, 1) and np.array_equal(c[:, 0], w), "column")
    m = np.array(case["m"])
    for nd in (None, case["n"]):
        t = np.asarray(u.augment_tensor(m) if nd is None else u.augment_tensor(m, nd))
        N = 4 if nd is None else nd
        e = np.eye(N)
        e[:3, :3] = m
        expect(t.shape == (N, N) and np.array_equal(t, e), "augmented tensor {}", t.tolist())
    d = np.asarray(u.dot(m, m.T, w))
    ref = m.dot(m.T.dot(w))
    expect(np.abs(d - ref).max() <= 1e-9 * (np.abs(m).max() ** 2 * np.abs(w).max() + 1e-12), "product of several matrices")
    for T, keep in zip(axis_aligned_transforms(), ((0, 1), (0, 2), (1, 2))):
        expect(np.array_equal(np.asarray(T).dot(w), w[list(keep)]), "projection onto axes {}", keep)
    # unit circle and covariance ellipse
    ell = np.asarray(stereonet.ellipse(n=case["k"]))
    th = np.linspace(0, 2 * math.pi, case["k"])
    expect(ell.shape == (case["k"], 2) and np.abs(ell - np.column_stack([np.cos(th), np.sin(th)])).max() < 1e-12, "unit circle")
    return [], oblique(case["w"])


@check.law(st.fixed_dictionaries(dict(s=st.lists(g.logfloat(1e-3, 1e3), min_size=2, max_size=2), rot=st.floats(0, 360), c=st.lists(st.floats(-100, 100), min_size=2, max_size=2),
                                      level=st.one_of(st.none(), st.floats(0.1, 5)), n=st.integers(8, 100))), quick=3000, thorough=60000)
def covariance_ellipses(case):
    """Points at `level` standard deviations of a 2-d covariance."""
    R = np.asarray(rotate_2D(math.radians(case["rot"])))
    cov = R.dot(np.diag(np.array(case["s"]) ** 2)).dot(R.T)
    kw = {} if case["level"] is None else dict(level=case["level"])
    p = np.asarray(covariance_ellipse(np.array(case["c"]), cov, n=case["n"], **kw), float)
    expect(p.shape == (case["n"], 2), "shape {}", p.shape)
    q = (p - np.array(case["c"])).dot(R) / np.array(case["s"]) / (case["level"] or 1.0)
    # rounding of the matrix limits the short axis
    k = (max(case["s"]) / min(case["s"])) ** 2
    tol = 1e-11 * k + 1e-12 * np.abs(case["c"]).max() / min(case["s"]) / min(1.0, case["level"] or 1.0) + 1e-9
    if tol > 0.01:
        raise Skip("rounding decides the short axis")
    expect(np.abs((q ** 2).sum(axis=1) - 1).max() <= 4 * tol, "ellipse is off by {}", np.abs((q ** 2).sum(axis=1) - 1).max())
    th = np.unwrap(np.arctan2(q[:, 1], q[:, 0]))
    expect(abs(abs(th[-1] - th[0]) - 2 * math.pi) < 0.01 + 10 * tol, "ellipse is not closed")
    return ["level" if kw else "default"], max(case["s"]) > 1.1 * min(case["s"])
