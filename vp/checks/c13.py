"""C13: the error surface of the pole is the polar dual of the plane's."""
from ..core import Check, expect
from .. import gens as g
from .. import cones as k
from ..gens import np, st
from .c12 import surface, axes_of, kw
import math

from attitude import stereonet

check = Check("C13", rule=(
    "Drawn attitudes, axis signs, error axis lengths, levels, point counts and layouts; every returned position is decoded "
    "to a unit normal, put into the normal cone's equation, and the plane it stands for is required to be tangent to the "
    "plane error surface. Non-trivial: dipping plane, n >= 8."),
    assumptions=["positions carry round-off; residuals are relative to the cone's own terms"])


def tol(d, level):
    t = 2 * level * d[2] / max(d[:2])
    return 1e-6 + 4e-7 / min(t, 1.0)


def check_ring(pts, A, d, level, n, trad):
    expect(len(pts) == n, "{} positions, {} asked", len(pts), n)
    p = np.asarray(pts, float)
    expect(np.all(np.isfinite(p)), "non-finite positions")
    w = k.local(k.normal_vectors(p, trad), A)
    expect(np.all(w[:, 2] > 0), "a normal points to the wrong side")
    res = k.normal_cone_residual(w, d, level)
    i = int(np.argmax(res))
    expect(res[i] <= tol(d, level), "position {} is off the normal cone by {} (axes {}, level {})", p[i].tolist(), res[i], d, level)
    th = np.arctan2(w[:, 1], w[:, 0])
    v = k.normal_vectors(p, trad)
    expect(np.abs(v[0] - v[-1]).max() < 1e-6, "ring is not closed")
    if 2 * level * d[2] / max(d[:2]) < 1e-4:
        return w       # the ring is so small that round-off decides the order of its points
    s = k.steps(th)
    expect(np.all(s > 0) or np.all(s < 0), "ring is not traversed once")
    expect(abs(abs(s.sum()) - 2 * math.pi) < 1e-4, "ring covers {} rad", s.sum())
    expect(k.gaps(th) <= 2 * math.pi / (n - 1) * 1.01 + 1e-3, "ring has a gap of {} rad", k.gaps(th))
    return w


@check.law(st.fixed_dictionaries(dict(surface, trad=st.sampled_from([True, False, None]))), quick=6000, thorough=150000)
def dual_cone(case):
    A, d = axes_of(case), np.array(case["d"])
    C = np.diag(d)
    keep = A.copy(), C.copy()
    level = case["level"] or 1.0
    trad = True if case["trad"] is None else case["trad"]
    lay = {} if case["trad"] is None else dict(traditional_layout=trad)
    pts = stereonet.normal_errors(A, C, n=case["n"], **kw(case, **lay))
    expect(np.array_equal(A, keep[0]) and np.array_equal(C, keep[1]), "arguments changed")
    w = check_ring(pts, A, d, level, case["n"], trad)
    # Duality: the plane with this normal touches the plane cone in one generator
    # x ~ Q^-1 n, and no direction of the plane sheets lies beyond it.
    c = 2 * level * d[2]
    gen = w * np.array([d[0] ** 2, d[1] ** 2, -c ** 2])
    gen = gen / np.linalg.norm(gen, axis=1)[:, None]
    touch = np.abs((gen * w).sum(axis=1))
    expect(np.all(touch <= tol(d, level)), "normal does not stand for a plane tangent to the plane errors ({})", touch.max())
    sheets = np.vstack([k.local(k.plane_vectors(stereonet.plane_errors(A, C, sheet=s, n=60, level=level)), A) for s in ("upper",)])
    # all generators of one sheet lie on one side of each tangent plane
    side = sheets.dot(w.T)
    expect(np.all(side <= 1e-6) or np.all(side >= -1e-6), "normal errors cut through the plane errors")
    return ["upside-down" if A[2, 2] < 0 else "upright", "default-layout" if trad else "vertical-layout"], case["dip"] > 0 and case["n"] >= 8


@check.law(st.fixed_dictionaries(dict(surface, trad=st.sampled_from([True, False, None]))), quick=2500, thorough=50000)
def iterative(case):
    A, d = axes_of(case), np.array(case["d"])
    n = min(case["n"], 40)
    trad = True if case["trad"] is None else case["trad"]
    lay = {} if case["trad"] is None else dict(traditional_layout=trad)
    pts = stereonet.iterative_normal_errors(A, np.diag(d), n=n, **kw(case, **lay))
    check_ring(pts, A, d, case["level"] or 1.0, n, trad)
    ref = stereonet.normal_errors(A, np.diag(d), n=n, **kw(case, **lay))
    expect(np.abs(k.sph(pts) - k.sph(ref)).max() < 1e-6, "iterative and vectorised rings differ")
    return [], case["dip"] > 0 and n >= 8


@check.law(st.fixed_dictionaries(dict(surface, l2=g.levels)), quick=1500, thorough=30000)
def widening(case):
    """A larger level encloses a smaller one, in the same proportion everywhere."""
    A, d = axes_of(case), np.array(case["d"])
    l1, l2 = sorted([case["level"] or 1.0, case["l2"]])
    w1, w2 = (k.local(k.normal_vectors(stereonet.normal_errors(A, np.diag(d), n=40, level=l)), A) for l in (l1, l2))
    t1, t2 = (np.hypot(w[:, 0], w[:, 1]) / w[:, 2] for w in (w1, w2))
    # tangent of the half-opening is proportional to the level
    expect(np.all(np.abs(t1 * l2 - t2 * l1) <= 1e-5 * (t2 * l1 + 1) + 1e-7 * t2 * t2), "widths {} at level {} but {} at {}", t1[:3], l1, t2[:3], l2)
    return [], l1 != l2


@check.law(st.fixed_dictionaries(dict(surface, levels=st.one_of(st.none(), st.lists(g.levels, min_size=1, max_size=3, unique=True)), trad=st.booleans())), quick=1200, thorough=25000)
def bundled(case):
    """The ellipses bundled with the error coordinates, in degrees, one per level."""
    A, d = axes_of(case), np.array(case["d"])
    n = case["n"]
    args = dict(n=n, traditional_layout=case["trad"])
    if case["levels"] is not None:
        args["levels"] = list(case["levels"])
    out = stereonet.error_coords(A, np.diag(d), **args)
    for l in ([1.0] if case["levels"] is None else case["levels"]):
        m = out if case["levels"] is None else out[l]
        check_ring(np.radians(m["ellipse"]), A, d, l, n, case["trad"])
    return ["levels" if case["levels"] else "one level"], case["dip"] > 0 and n >= 8
