"""C17: slices, tangent outlines and subtended angles of quadrics."""
from ..core import Check, Skip, expect
from .. import gens as g
from .. import quadrics as qd
from ..gens import np, st
import math

from attitude.geom.conics import Conic, conic
from attitude.geom.util import augment, plane

check = Check("C17", rule=(
    "Ellipsoids and ellipses of known geometry, drawn cutting planes (with and without caller-supplied axes), viewpoints outside the "
    "body, and bodies centred on one of their own axes as seen from the viewpoint; slice and outline points are lifted back to space and "
    "tested against the body and the line of sight. Non-trivial: rotated or off-centre, not a sphere."),
    assumptions=["subtended angles are claimed where they are symmetric: viewpoint on a principal axis of the body"])


def nontrivial(e):
    return max(e["a"]) > 1.01 * min(e["a"]) and (e["rot"] != 0 or any(e["c"]))


# Lengths come in any unit; every tolerance is relative to it
units = st.one_of(st.just(1.0), st.sampled_from([1e-9, 1e-7, 1e-5, 1e-3, 0.1, 1e3, 1e5, 1e7]))


@st.composite
def sized(draw, **kw):
    e = draw(qd.ellipsoids(lo=0.2, hi=5.0, offset=6.0))
    u = draw(units)
    return dict(e, a=[x * u for x in e["a"]], c=[x * u for x in e["c"]], unit=u)


bodies = sized()


@check.law(st.fixed_dictionaries(dict(e=bodies, n=st.one_of(qd.unit3, st.sampled_from([[0, 0, 1], [0, 1, 0], [1, 0, 0], [0, 0, -1], [1, 1, 0]])), o=st.floats(-5, 5), s=g.logfloat(0.1, 10),
                                      p=st.lists(st.floats(-5, 5), min_size=2, max_size=2), own=st.booleans(), turn=st.floats(0, 360),
                                      signs=st.one_of(st.just([1, 1, 1]), st.lists(st.sampled_from([1, -1]), min_size=3, max_size=3)))), quick=5000, thorough=100000)
def slices(case):
    e = case["e"]
    d = e["dim"]
    n = np.array(case["n"], float)[:d]
    n[np.abs(n) < 1e-6] = 0
    L = np.linalg.norm(n)
    if L < 0.05:
        raise Skip("no direction")
    signs = case["signs"][:d]
    C = conic(qd.matrix(e, signs))
    unit = e["unit"]
    o = case["o"] * unit
    P = plane(n * case["s"] / L, o * case["s"])
    kw = {}
    if case["own"]:
        t = math.radians(case["turn"])
        R = np.linalg.svd((n / L)[None, :])[2][1:]
        if d == 3:
            ax = [math.cos(t) * R[0] + math.sin(t) * R[1], 2.0 * (-math.sin(t) * R[0] + math.cos(t) * R[1])]
        else:
            ax = [R[0] * 1.5]
        kw["axes"] = tuple(ax)
    con, T, off = C.slice(P, **kw)
    con, T, off = np.asarray(con), np.asarray(T), np.asarray(off)
    expect(con.shape == (d, d) and off.shape == (d,) and T.shape == (d, d + 1), "shapes {} {} {}", con.shape, T.shape, off.shape)
    nn = n / L
    expect(abs(nn.dot(off) + o) <= 1e-9 * (unit + abs(o)), "offset is not on the cutting plane")
    axes = T[:-1, :d]
    if case["own"]:
        expect(np.allclose(axes, np.array(kw["axes"]), atol=1e-12), "the caller's axes were not used")
    else:
        expect(np.abs(axes.dot(axes.T) - np.eye(d - 1)).max() < 1e-9, "default axes are not orthonormal: {}", axes.tolist())
        expect(np.abs(axes.dot(nn)).max() < 1e-9, "default axes leave the plane")
    # every point of the slice: same value of the form in the slice and in space
    u = np.array(case["p"])[:d - 1] * unit
    x = np.append(u, 1.0).dot(T)
    expect(abs(x[-1] - 1) < 1e-12, "lifted point is not homogeneous: {}", x)
    xyz = x[:-1]
    expect(abs(nn.dot(xyz) + o) <= 1e-8 * (unit + np.abs(xyz).max()), "lifted point leaves the cutting plane")
    expect(np.abs(xyz - (off + u.dot(axes))).max() <= 1e-9 * (unit + np.abs(xyz).max()), "lifted point {} expected {}", xyz, off + u.dot(axes))
    a = float(np.append(u, 1.0).dot(con).dot(np.append(u, 1.0)))
    b = qd.value(e, xyz, signs)
    expect(abs(a - b) <= 1e-9 * (np.abs(np.asarray(C)[:d, :d]).max() * (unit + np.abs(xyz).max() + np.abs(e["c"]).max()) ** 2), "form in the slice {} but {} in space", a, b)
    return ["%dd" % d, "own axes" if case["own"] else "default axes", "ellipsoid" if min(signs) > 0 else "hyperboloid"] + ([] if unit == 1 else ["other unit"]), nontrivial(e)


@check.law(st.fixed_dictionaries(dict(e=bodies, u=qd.unit3, f=st.floats(1.2, 8), th=st.floats(0, 360), origin=st.booleans())), quick=4000, thorough=80000)
def outlines(case):
    """The outline seen from a viewpoint: on the surface, and the line of sight grazes it."""
    e = dict(case["e"])
    d = e["dim"]
    u = np.array(case["u"])[:d]
    if np.linalg.norm(u) < 0.05:
        raise Skip("no direction")
    eye = np.array(e["c"]) + case["f"] * (qd.surface_point(e, u) - np.array(e["c"]))
    if case["origin"]:
        e["c"] = list(np.array(e["c"]) - eye)
        eye = np.zeros(d)
    C = conic(qd.matrix(e))
    kw = {} if case["origin"] else dict(viewpoint=eye)
    con, T, off = (np.asarray(x) for x in C.projection(**kw))
    if case["origin"]:
        con2 = np.asarray(C.projection(viewpoint=np.zeros(d))[0])
        expect(np.allclose(con, con2, rtol=1e-12, atol=1e-15 * np.abs(con).max()), "the default viewpoint is not the origin")
    # a point of the outline in the slice's own coordinates
    A, b, k = con[:-1, :-1], con[:-1, -1], con[-1, -1]
    cc = -np.linalg.solve(A, b)
    r2 = -(k + b.dot(cc))
    th = math.radians(case["th"])
    dirn = np.array([math.cos(th), math.sin(th)])[:d - 1] if d == 3 else np.array([1.0 if case["th"] < 180 else -1.0])
    q = dirn.dot(A).dot(dirn)
    expect(r2 * q > 0, "the outline is empty although the viewpoint is outside")
    pt = cc + dirn * math.sqrt(r2 / q)
    p = np.append(pt, 1.0).dot(T)[:-1]
    tol = 1e-7 * qd.cond(e)
    expect(abs(qd.value(e, p)) <= tol, "outline point {} is not on the body ({})", p, qd.value(e, p))
    # grazing: the form along the line of sight has a double root at p
    mid = [qd.value(e, p + t * (p - eye)) for t in (-0.5, 0.5)]
    expect(min(mid) >= -tol, "the line of sight enters the body beyond the outline ({})", mid)
    R, a = qd.rotation(d, e["rot"]), np.array(e["a"])
    grad = R.T.dot(np.diag(1 / a ** 2)).dot(R).dot(p - np.array(e["c"]))
    cosn = grad.dot(p - eye) / np.linalg.norm(grad) / np.linalg.norm(p - eye)
    expect(abs(cosn) <= 1e-6 * qd.cond(e) ** 0.5 + 1e-6, "the line of sight meets the surface at {} to its tangent", cosn)
    return ["%dd" % d, "origin" if case["origin"] else "viewpoint"] + ([] if e["unit"] == 1 else ["other unit"]), nontrivial(e)


@check.law(st.fixed_dictionaries(dict(e=bodies, scale=st.sampled_from([1.0, 1.0, 3.0, 0.01]))), quick=3000, thorough=60000)
def principal_axes(case):
    e = case["e"]
    d = e["dim"]
    C = conic(qd.matrix(e) * case["scale"])
    M = np.asarray(C.major_axes(), float)
    expect(M.shape == (d, d), "major axes {}", M.shape)
    L = np.linalg.norm(M, axis=1)
    rel = 1e-9 * qd.cond(e)
    expect(np.allclose(np.sort(L), np.sort(e["a"]), rtol=rel + 1e-9), "lengths {} of a body with semi-axes {}", L, e["a"])
    G = (M / L[:, None])
    expect(np.abs(G.dot(G.T) - np.eye(d)).max() < 1e-6, "major axes are not perpendicular")
    for v in M:
        for s in (-1, 1):
            expect(abs(qd.value(e, np.array(e["c"]) + s * v)) <= 1e-6 + 10 * rel, "end {} of a major axis is not on the surface", v)
    return ["%dd" % d] + ([] if e["unit"] == 1 else ["other unit"]), nontrivial(e)


@check.law(st.fixed_dictionaries(dict(unit=units, dim=st.sampled_from([2, 3]), a=st.lists(g.logfloat(0.05, 20), min_size=3, max_size=3), f=st.floats(1.05, 50), rot=qd.rot, which=st.integers(0, 2),
                                      sign=st.sampled_from([-1, 1]), tangent=st.booleans(), eye=st.one_of(st.none(), st.lists(st.floats(-20, 20), min_size=3, max_size=3)))),
           quick=4000, thorough=80000)
def subtended(case):
    """Half-angles of a body centred on one of its axes: tan = a_i / sqrt(D^2 - c^2), largest first."""
    d = case["dim"]
    a = np.array(case["a"])[:d] * case["unit"]
    i = case["which"] % d
    R = qd.rotation(d, case["rot"])
    D = case["f"] * a[i]
    c = case["sign"] * D * R[i]
    kw = {}
    if case["eye"] is not None:
        eye = np.array(case["eye"])[:d] * case["unit"]
        c = c + eye
        kw["viewpoint"] = eye
    e = dict(dim=d, a=list(a), c=list(c), rot=case["rot"])
    C = conic(qd.matrix(e))
    if case["tangent"]:
        kw["tangent"] = True
    got = np.atleast_1d(np.asarray(C.angle_subtended(**kw), float))
    want = np.sort([a[j] / math.sqrt(D * D - a[i] ** 2) for j in range(d) if j != i])[::-1]
    if not case["tangent"]:
        want = np.arctan(want)
    tol = 1e-9 * qd.cond(e) / (1 - 1 / case["f"] ** 2) + 1e-7
    expect(got.shape == want.shape, "{} angles for {} directions", got.shape, d - 1)
    expect(np.all(np.abs(got - want) <= tol * (1 + want)), "subtended {} expected {}", got, want)
    return ["%dd" % d, "viewpoint" if case["eye"] is not None else "origin"] + (["tangent"] if case["tangent"] else []), True
