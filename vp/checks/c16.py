"""C16: quadric algebra: membership, motion, centre, poles and duals agree."""
from ..core import Check, Skip, expect
from .. import gens as g
from .. import quadrics as qd
from ..gens import np, st
import math

from attitude import Orientation
from attitude.geom.conics import Conic, conic
from attitude.geom.util import augment_tensor, augment, plane, Plane

check = Check("C16", rule=(
    "Ellipses, ellipsoids and hyperboloids of known centre, semi-axes and rotation, built through the library and from "
    "scratch; membership, transformation, translation, centre, polar plane, pole and dual are evaluated at drawn points inside, on and "
    "outside the surface. Non-trivial: off-centre or rotated, not a sphere."),
    assumptions=["points closer to the surface than round-off (1e-9 of the form, times conditioning) are not used for inside/outside"])


def lib(e, signs=None):
    """The same quadric assembled with the library's own operations."""
    if signs is None:
        c = Conic.from_semiaxes(e["a"])
    else:
        c = conic(np.diag(list(np.array(signs, float) / np.array(e["a"], float) ** 2) + [-1.0]))
    return c.transform(augment_tensor(qd.rotation(e["dim"], e["rot"]))).translate(np.array(e["c"], float))


def same_quadric(A, B, tol, what):
    A, B = np.asarray(A, float), np.asarray(B, float)
    m = np.abs(B).max()
    expect(A.shape == B.shape and np.abs(A - B).max() <= tol * m, "{}: {} expected {}", what, A.tolist(), B.tolist())


# Lengths come in any unit: what is compared is first expressed in the body's own one
UNITS = st.one_of(st.just(1.0), st.sampled_from([1e-6, 1e-4, 1e-2, 100.0, 1e4, 1e6]))


def sized(e, u):
    return dict(e, a=[x * u for x in e["a"]], c=[x * u for x in e["c"]])


def own(d, u):
    return np.diag([u] * d + [1.0])


def nontrivial(e):
    return max(e["a"]) > 1.01 * min(e["a"]) and (e["rot"] != 0 or any(e["c"]))


@check.law(st.fixed_dictionaries(dict(e=qd.ellipsoids(), unit=UNITS, u=qd.unit3, f=st.one_of(st.floats(0.0, 2.5), st.tuples(st.sampled_from([-1, 1]), st.integers(2, 6)).map(lambda t: 1 + t[0] * 10.0 ** -t[1])))), quick=5000, thorough=100000)
def membership(case):
    unit = case["unit"]
    e = sized(case["e"], unit)
    d = e["dim"]
    C = lib(e)
    S = own(d, unit)
    same_quadric(S.dot(C).dot(S), S.dot(qd.matrix(e)).dot(S), 1e-10 * qd.cond(e) ** 0.5, "assembled quadric")
    u = np.array(case["u"])[:d]
    if np.linalg.norm(u) < 0.05:
        raise Skip("no direction")
    p = qd.surface_point(e, u)
    tol = 1e-12 * qd.cond(e)
    expect(abs(float(C.solve(augment(p)))) <= tol + 1e-11, "surface point gives {}", C.solve(augment(p)))
    c = np.array(e["c"])
    q = c + case["f"] * (p - c)
    v = case["f"] ** 2 - 1
    if abs(v) > 10 * tol + 1e-9:
        expect(bool(C.contains(q)) == (v <= 0), "point at {} of the radius: contains = {}", case["f"], C.contains(q))
    if tol < 1e-9:
        expect(bool(C.contains(p, shell_only=True)), "surface point not on the shell")
        if abs(v) > 1e-6:
            expect(not bool(C.contains(q, shell_only=True)), "point at {} of the radius is on the shell", case["f"])
    expect(np.abs(np.asarray(C.center()) - c).max() <= 1e-10 * qd.cond(e) * (unit + np.abs(c).max()), "center {} expected {}", C.center(), c)
    expect(bool(C.is_elliptical()) and not bool(C.is_hyperbolic()), "an ellipsoid is not elliptical")
    # from_axes: coefficients instead of lengths
    B = Conic.from_axes(1 / np.array(e["a"], float) ** 2)
    same_quadric(B, Conic.from_semiaxes(np.array(e["a"])), 1e-12, "from_axes")
    al = Conic.from_semiaxes(e["a"])
    expect(np.allclose(np.sqrt(al.semiaxes()), e["a"], rtol=1e-9), "semiaxes {} of {}", al.semiaxes(), e["a"])
    return ["%dd" % d, "inside" if v < 0 else "outside"], nontrivial(e)


@st.composite
def maps(draw):
    return dict(rot=draw(qd.rot), scale=draw(st.lists(g.logfloat(0.2, 5), min_size=3, max_size=3)), rot2=draw(qd.rot),
                shift=draw(st.lists(st.floats(-5, 5), min_size=3, max_size=3)))


@check.law(st.fixed_dictionaries(dict(e=qd.ellipsoids(), unit=UNITS, signs=st.lists(st.sampled_from([1, 1, -1]), min_size=3, max_size=3), m=maps(), p=st.lists(st.floats(-10, 10), min_size=3, max_size=3),
                                      v=st.lists(st.floats(-20, 20), min_size=3, max_size=3))), quick=4000, thorough=80000)
def motion(case):
    """transform(T) describes the points that T carries onto the quadric; translate moves it."""
    unit = case["unit"]
    e = sized(case["e"], unit)
    d = e["dim"]
    C = conic(qd.matrix(e, case["signs"][:d]))
    m = case["m"]
    L = qd.rotation(d, m["rot"]).dot(np.diag(m["scale"][:d])).dot(qd.rotation(d, m["rot2"]))
    T = augment_tensor(L)
    T[:d, d] = np.array(m["shift"][:d]) * unit
    S = own(d, unit)
    N = lambda M: S.dot(np.asarray(M)).dot(S)
    keep = np.array(C)
    p = np.array(case["p"])[:d] * unit
    D = C.transform(T)
    expect(isinstance(D, Conic), "transform returned {}", type(D))
    tp = L.dot(p) + np.array(m["shift"])[:d] * unit
    size = np.abs(N(keep)).max()
    mag = size * (1 + np.abs(tp).max() / unit) ** 2 * 10
    a, b = float(D.solve(augment(p))), float(C.solve(augment(tp)))
    expect(abs(a - b) <= 1e-12 * mag * 50, "form at p after transform {} but {} at T p", a, b)
    w = np.array(case["v"])[:d] * unit
    E = C.translate(w)
    a, b = float(E.solve(augment(p + w))), float(C.solve(augment(p)))
    mag = size * (1 + (np.abs(p).max() + np.abs(w).max()) / unit) ** 2
    expect(abs(a - b) <= 1e-11 * mag, "translated form {} at p + v but {} at p", a, b)
    expect(np.array_equal(np.asarray(C), keep), "transforming changed the original")
    c = np.asarray(E.center()) - np.asarray(C.center())
    expect(np.abs(c - w).max() <= 1e-9 * qd.cond(e) * (unit + np.abs(w).max() + np.abs(e["c"]).max()), "centre moved by {} not {}", c, w)
    # undoing it
    B = E.translate(-w)
    expect(np.abs(N(np.asarray(B) - keep)).max() <= 1e-11 * size * (1 + (np.abs(w).max() + np.abs(e["c"]).max()) / unit) ** 2, "translating back does not restore")
    U = D.transform(np.linalg.inv(T))
    k = np.linalg.cond(np.linalg.inv(S).dot(T).dot(S)) ** 2
    expect(np.abs(N(np.asarray(U) - keep)).max() <= 1e-12 * k * size * 100, "transforming back does not restore")
    return ["%dd" % d] + ([] if unit == 1 else ["other unit"]), bool(np.any(w))


@check.law(st.fixed_dictionaries(dict(e=qd.ellipsoids(lo=0.2, hi=5.0, offset=5.0), unit=UNITS, u=qd.unit3, f=st.floats(0.2, 4.0), u2=qd.unit3,
                                      signs=st.one_of(st.just([1, 1, 1]), st.lists(st.sampled_from([1, 1, -1]), min_size=3, max_size=3)))), quick=4000, thorough=80000)
def poles_and_duals(case):
    unit = case["unit"]
    e = sized(case["e"], unit)
    d = e["dim"]
    signs = case["signs"][:d]
    C = conic(qd.matrix(e, signs))
    c = np.array(e["c"])
    S = own(d, unit)
    Cn = S.dot(np.asarray(C)).dot(S)
    u = np.array(case["u"])[:d]
    if np.linalg.norm(u) < 0.05:
        raise Skip("no direction")
    tol = 1e-10 * qd.cond(e) * (1 if min(signs) > 0 else 100)
    p = qd.signed_point(e, u, signs)
    if p is None:
        raise Skip("no surface in this direction")
    # pole and polar invert each other
    q = c + case["f"] * (p - c)
    pl = C.polar_plane(q)
    expect(isinstance(pl, Plane), "polar plane is {}", type(pl))
    back = np.asarray(C.pole(pl))
    expect(np.abs(back - q).max() <= tol * (unit + np.abs(q).max()), "pole of the polar plane {} is not {}", back, q)
    # ... however the equation of the plane is scaled
    for k in (case["f"], -3.0):
        back = np.asarray(C.pole(np.asarray(pl, float) * k))
        expect(np.abs(back - q).max() <= tol * (unit + np.abs(q).max()), "pole of the plane with its equation scaled by {} is {}, not {}", k, back, q)
    # the polar of a surface point is its tangent plane
    t = np.asarray(C.polar_plane(p), float)
    n = t[:-1] / np.linalg.norm(t[:-1])
    expect(abs(t.dot(np.append(p, 1.0))) <= tol * np.abs(S.dot(t)).max() * (1 + np.abs(p).max() / unit), "tangent plane misses its point")
    R, a = qd.rotation(d, e["rot"]), np.array(e["a"])
    grad = R.T.dot(np.diag(np.array(signs) / a ** 2)).dot(R).dot(p - c)
    grad /= np.linalg.norm(grad)
    expect(min(np.abs(n - grad).max(), np.abs(n + grad).max()) <= 1e-7, "tangent plane normal {} expected {}", n, grad)
    # reciprocity: x on polar(y) <=> y on polar(x)
    y = qd.surface_point(e, np.array(case["u2"])[:d] + 1e-3)
    a1 = float(np.asarray(C.polar_plane(q), float).dot(np.append(y, 1.0)))
    a2 = float(np.asarray(C.polar_plane(y), float).dot(np.append(q, 1.0)))
    expect(abs(a1 - a2) <= tol * np.abs(Cn).max() * 10, "polarity is not symmetric")
    # the dual is satisfied by exactly the tangent planes
    D = C.dual()
    val = float(t.dot(np.asarray(D)).dot(t))
    I = np.linalg.inv(S)
    scale = np.abs(I.dot(np.asarray(D)).dot(I)).max() * np.abs(S.dot(t)).max() ** 2
    expect(abs(val) <= tol * scale, "tangent plane is not on the dual ({} of {})", val, scale)
    DD = np.asarray(D.dual())
    expect(np.abs(S.dot(DD - np.asarray(C)).dot(S)).max() <= tol * np.abs(Cn).max(), "dual of the dual is another quadric")
    return ["%dd" % d, "ellipsoid" if min(signs) > 0 else "hyperboloid"], nontrivial(e)


INT = st.integers(1, 6)


@check.law(st.fixed_dictionaries(dict(q=st.lists(INT, min_size=2, max_size=3), k=st.integers(1, 9), v=st.lists(st.floats(-9, 9), min_size=3, max_size=3),
                                      angle=st.floats(-3, 3), p=st.lists(st.floats(-5, 5), min_size=3, max_size=3))), quick=800, thorough=20000)
def whole_numbers(case):
    """A quadric given by whole numbers behaves as the same one given by floats."""
    d = len(case["q"])
    M = np.diag([int(x) for x in case["q"]] + [-case["k"]])
    C, F = conic(M.tolist()), conic(M.astype(float))
    v, p = np.array(case["v"])[:d], np.array(case["p"])[:d]
    T = np.eye(d + 1)
    T[:2, :2] = [[math.cos(case["angle"]), -math.sin(case["angle"])], [math.sin(case["angle"]), math.cos(case["angle"])]]
    for a, b, what in ((C.translate(v), F.translate(v), "translate"), (C.transform(T), F.transform(T), "transform"), (C.dual(), F.dual(), "dual"),
                       (C.polar_plane(p), F.polar_plane(p), "polar_plane"), (C.major_axes(), F.major_axes(), "major_axes"), (C.semiaxes(), F.semiaxes(), "semiaxes")):
        a, b = np.abs(np.asarray(a, float)), np.abs(np.asarray(b, float))
        expect(a.shape == b.shape and np.abs(a - b).max() <= 1e-9 * (1 + b.max()), "{} of a whole-numbered quadric {} expected {}", what, a.tolist(), b.tolist())
    want = float(sum(q * x * x for q, x in zip(case["q"], p)) - case["k"])
    expect(abs(float(C.translate(v).solve(augment(p + v))) - want) <= 1e-8 * (1 + np.abs(v).max() + np.abs(p).max()) ** 2 * 10, "translated form")
    if abs(want) > 1e-6:
        expect(bool(C.contains(p)) == (want <= 0), "contains")
    iv = [int(x) for x in v]
    c = np.asarray(C.translate(np.array(iv)).center(), float)
    expect(np.abs(c - iv).max() < 1e-9, "centre {} after moving by {}", c, iv)
    E = Conic.from_semiaxes([int(x) for x in case["q"]])
    expect(bool(E.contains(np.array(case["q"]) * 0.5 / math.sqrt(d))) and not bool(E.contains(np.array(case["q"]) * 1.01)), "from whole-numbered semi-axes")
    return ["%dd" % d], bool(np.any(np.abs(v - np.round(v)) > 1e-3))


@check.law(st.fixed_dictionaries(dict(e=st.one_of(qd.ellipsoids(), qd.ellipsoids(lo=1e-3, hi=3.0, offset=3.0), qd.ellipsoids(lo=30.0, hi=1e4, offset=1e4)), k=st.integers(0, 2))), quick=1500, thorough=30000)
def classification(case):
    e = case["e"]
    d = e["dim"]
    s = np.ones(d)
    s[case["k"] % d] = -1
    H = lib(e, s)
    expect(bool(H.is_hyperbolic()) and not bool(H.is_elliptical()) and not bool(H.is_parabolic()), "hyperboloid of one sheet misjudged")
    E = lib(e)
    expect(bool(E.is_elliptical()) and not bool(E.is_hyperbolic()) and not bool(E.is_parabolic()), "ellipsoid misjudged")
    z = np.append(1 / np.array(e["a"]) ** 2, -1.0)
    z[case["k"] % d] = 0
    P = np.diag(z)
    P[case["k"] % d, d] = P[d, case["k"] % d] = -0.5
    P = conic(P)
    expect(bool(P.is_parabolic()) and not bool(P.is_elliptical()) and not bool(P.is_hyperbolic()), "paraboloid misjudged")
    return ["%dd" % d], True


@check.law(st.fixed_dictionaries(dict(e=qd.ellipsoids(lo=1e-3, hi=1e3, offset=1.0), signs=st.lists(st.sampled_from([1, 1, -1]), min_size=3, max_size=3))), quick=1500, thorough=30000)
def elongate(case):
    """Needles and wafers: the centre survives any axis ratio the number type can carry."""
    e = case["e"]
    d = e["dim"]
    a = np.array(e["a"])
    ratio = float(a.max() / a.min())
    M = qd.matrix(e, case["signs"][:d])
    c = np.asarray(conic(M).center(), float)
    # the equation itself carries the centre only to within its rounding, amplified by the axis ratio
    tol = 1e-12 * ratio ** 2 * (1 + np.abs(e["c"]).max())
    if tol > 0.05:
        raise Skip("beyond double precision")
    expect(np.abs(c - e["c"]).max() <= tol, "centre {} of a quadric with semi-axes {}, expected {}", c, a, e["c"])
    return ["%dd" % d, "ratio>1e%d" % int(math.log10(ratio))], ratio > 100 and any(e["c"])


@check.law(st.fixed_dictionaries(dict(n=qd.unit3, o=st.floats(-50, 50), s=g.logfloat(1e-2, 1e2), dim=st.sampled_from([2, 3]), p=st.lists(st.floats(-10, 10), min_size=3, max_size=3))),
           quick=2000, thorough=40000)
def planes(case):
    n = np.array(case["n"])[:case["dim"]]
    if np.linalg.norm(n) < 0.05:
        raise Skip("no direction")
    P = plane(n * case["s"], case["o"] * case["s"])
    h = np.asarray(P.hessian_normal(), float)
    L = np.linalg.norm(n)
    expect(np.allclose(h, np.append(n / L, case["o"] / L), rtol=1e-9, atol=1e-12), "hessian form {}", h)
    expect(np.allclose(np.asarray(P.normal()), n / L, rtol=0, atol=1e-12), "normal {}", P.normal())
    o = np.asarray(P.offset(), float)
    expect(abs(n.dot(o) + case["o"]) <= 1e-9 * (1 + abs(case["o"])), "offset {} is not on the plane", o)
    expect(np.abs(o - (o.dot(n) / L ** 2) * n).max() <= 1e-9 * (1 + np.abs(o).max()), "offset is not the nearest point to the origin")
    expect(np.allclose(np.asarray(plane(n)), np.append(n, 0.0)), "plane without offset")
    return ["%dd" % case["dim"]], case["o"] != 0


clouds = g.frames(sizes=g.sizes_small, max_offset=100.0, size_range=(0.3, 30), min_gap=1.1, max_gap=8, min_ratio=0.05, max_ratio=0.6, layout=False)


@check.law(st.fixed_dictionaries(dict(cloud=clouds, signs=st.lists(st.sampled_from([-1, 1]), min_size=3, max_size=3), u=qd.unit3, level=st.one_of(st.none(), st.floats(0.3, 3)))),
           quick=1500, thorough=30000)
def of_a_fit(case):
    """Error ellipsoid and hyperboloid of a fit, in its frame and in geographic coordinates."""
    fit = Orientation(np.array(g.build(case["cloud"])))
    fit = Orientation(fit.array, axes=fit.axes * np.array(case["signs"])[:, None] * fit.singular_values)
    A = np.array(fit.axes)
    s = np.asarray(fit.singular_values)
    d = 4 * s ** 3 / fit.n
    u = np.array(case["u"])
    # hyperboloid x^2/d1 + y^2/d2 - z^2/d3 = 1
    w = np.array([u[0] * math.sqrt(d[0]), u[1] * math.sqrt(d[1]), u[2] * math.sqrt(d[2])])
    want = u[0] ** 2 + u[1] ** 2 - u[2] ** 2 - 1
    for rotated, p in ((None, w), (False, w), (True, A.T.dot(w))):
        H = fit.as_hyperbola() if rotated is None else fit.as_hyperbola(rotated=rotated)
        got = float(H.solve(augment(p)))
        expect(abs(got - want) <= 1e-9 * (3 + qd_cond(d)), "hyperboloid (rotated: {}) gives {} expected {}", rotated, got, want)
    # ellipsoid of semi-axes sqrt(d)/level around the tip of the fit's normal vector
    kw = {} if case["level"] is None else dict(level=case["level"])
    lev = case["level"] or 1.0
    E = fit.as_conic(**kw)
    B = A if A[2, 2] >= 0 else -A
    c = B.T.dot(np.array([0, 0, s[0] * s[1]]))
    p = c + B.T.dot(w / lev)
    got = float(E.solve(augment(p)))
    want = u.dot(u) - 1
    k = ((np.abs(c).max() + np.sqrt(d).max()) / np.sqrt(d).min()) ** 2 * max(lev, 1) ** 2
    expect(abs(got - want) <= 1e-12 * k + 1e-9, "error ellipsoid gives {} expected {}", got, want)
    ct = np.asarray(E.center())
    expect(g.vec_angle_deg(ct, c) < 1e-3 + 1e-9 * k and abs(np.linalg.norm(ct) - np.linalg.norm(c)) <= (1e-6 + 1e-12 * k) * np.linalg.norm(c), "ellipsoid centre {} expected {}", ct, c)
    return ["upside-down" if A[2, 2] < 0 else "upright"], True


def qd_cond(d):
    return float(d.max() / d.min())
