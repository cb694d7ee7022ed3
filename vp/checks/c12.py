"""C12: the error surface of a plane is the hyperbolic cone of its covariance."""
from ..core import Check, expect
from .. import gens as g
from .. import cones as k
from ..gens import np, st
import math

from attitude import Orientation, ReconstructedPlane
from attitude import stereonet

check = Check("C12", rule=(
    "Drawn attitudes, axis signs, error axis lengths over several decades, levels, point counts, sheets and layouts; every "
    "returned position is decoded to a direction and put into the cone equation of the plane. Non-trivial: dipping plane, n >= 8."),
    assumptions=["positions carry round-off; residuals are relative to the cone's own terms"])

signs = st.lists(st.sampled_from([-1, 1]), min_size=3, max_size=3)
surface = dict(strike=g.strikes, dip=g.dips, k=g.inplane, signs=signs,
               # the in-plane axes come in either order (planes reconstructed from angles)
               d=st.tuples(g.logfloat(1e-3, 1e4), g.logfloat(1e-3, 1), g.logfloat(1e-4, 1), st.booleans()).map(
                   lambda t: [t[0] * t[1], t[0], t[0] * t[1] * t[2]] if t[3] else [t[0], t[0] * t[1], t[0] * t[1] * t[2]]),
               level=st.one_of(st.none(), g.levels), n=st.one_of(st.integers(4, 20), st.integers(21, 150), st.integers(4, 150), st.sampled_from([181, 360, 500, 721, 1000, 1500])))


def axes_of(case):
    A = g.plane_frame(case["strike"], case["dip"], case["k"])
    if case["dip"] == 90.0:
        A[2, 2] = 0.0        # exactly vertical: counts as upright
    return A * np.array(case["signs"])[:, None]


def kw(case, **more):
    if case["level"] is not None:
        more["level"] = case["level"]
    return more


def tol(d, level):
    # Directions are rounded to ~1e-15, and arcsin near a pole of the projection only to ~1e-8; the cone's smallest angle amplifies that.
    a = 2 * level * d[2] / max(d[:2])
    return 1e-6 + 4e-7 / min(a, 1.0)


def check_sheet(pts, axes, d, level, sheet, n, traditional):
    expect(len(pts) == n, "{} positions, {} asked", len(pts), n)
    p = np.asarray(pts, float)
    expect(np.all(np.isfinite(p)), "non-finite positions")
    expect(np.abs(p[:, 0]).max() <= math.pi + 1e-9 and np.abs(p[:, 1]).max() <= math.pi / 2 + 1e-9, "positions are not lon/lat radians")
    w = k.local(k.plane_vectors(p, traditional), axes)
    if sheet == "nominal":
        expect(np.abs(w[:, 2]).max() < 1e-7, "nominal position {} off the plane", np.abs(w[:, 2]).max())
    else:
        res = k.plane_cone_residual(w, d, level)
        i = int(np.argmax(res))
        expect(res[i] <= tol(d, level), "{} sheet: position {} is off the error cone by {} (axes {}, level {})", sheet, p[i].tolist(), res[i], d, level)
        want = -1 if sheet == "upper" else 1
        expect(np.all(np.sign(w[:, 2]) == want), "{} sheet is on the wrong side of the plane", sheet)
    # The ring goes once around, closed
    th = np.arctan2(w[:, 1] / d[1], w[:, 0] / d[0])
    expect(abs(k.gaps(th) - 2 * math.pi / (n - 1)) < 0.02 / n + 1e-3, "ring has a gap of {} rad", k.gaps(th))
    s = k.steps(th)
    expect(np.all(s > 0) or np.all(s < 0), "ring is not traversed once")
    expect(np.abs(np.asarray(k.plane_vectors(p[:1], traditional)) - k.plane_vectors(p[-1:], traditional)).max() < 1e-6, "ring is not closed")


@check.law(st.fixed_dictionaries(dict(surface, sheet=st.sampled_from(["upper", "lower", "nominal"]), trad=st.sampled_from([True, False, None]))),
           quick=6000, thorough=150000)
def cone(case):
    A, d = axes_of(case), np.array(case["d"])
    C = np.diag(d)
    keep = A.copy(), C.copy()
    trad = True if case["trad"] is None else case["trad"]
    lay = {} if case["trad"] is None else dict(traditional_layout=trad)
    pts = stereonet.plane_errors(A, C, sheet=case["sheet"], n=case["n"], **kw(case, **lay))
    check_sheet(pts, A, d, case["level"] or 1.0, case["sheet"], case["n"], trad)
    expect(np.array_equal(A, keep[0]) and np.array_equal(C, keep[1]), "arguments changed")
    if case["sheet"] == "upper":
        expect(np.allclose(stereonet.plane_errors(A, C, n=case["n"], **kw(case, **lay)), pts, atol=1e-12), "the default sheet is not the upper one")
    return [case["sheet"], "upside-down" if A[2, 2] < 0 else "upright", "default-layout" if trad else "vertical-layout"], case["dip"] > 0 and case["n"] >= 8


@check.law(st.fixed_dictionaries(dict(surface, sheet=st.sampled_from(["upper", "lower", "nominal"]))), quick=2000, thorough=40000)
def iterative(case):
    """The point-by-point implementation gives the same surface."""
    A, d = axes_of(case), np.array(case["d"])
    n = min(case["n"], 40)
    pts = stereonet.iterative_plane_errors(A, np.diag(d), sheet=case["sheet"], n=n, **kw(case))
    check_sheet(pts, A, d, case["level"] or 1.0, case["sheet"], n, True)
    ref = stereonet.plane_errors(A, np.diag(d), sheet=case["sheet"], n=n, **kw(case))
    expect(np.abs(k.sph(pts) - k.sph(ref)).max() < 1e-6, "iterative and vectorised surfaces differ")
    return [case["sheet"]], case["dip"] > 0 and n >= 8


@check.law(st.fixed_dictionaries(dict(surface, levels=st.one_of(st.none(), st.lists(g.levels, min_size=1, max_size=3, unique=True), st.lists(g.levels, min_size=4, max_size=8, unique=True)),
                                      ell=st.booleans(), trad=st.booleans(), which=st.sampled_from(["function", "fit"]), seed=g.seeds)),
           quick=2500, thorough=50000)
def coordinates(case):
    """error_coords: nominal, upper and lower rings in degrees, per level."""
    A, d = axes_of(case), np.array(case["d"])
    n = case["n"]
    args = dict(n=n, traditional_layout=case["trad"])
    if case["levels"] is not None:
        args["levels"] = list(case["levels"])
    if not case["ell"]:
        args["ellipse"] = False
    if case["which"] == "fit":
        rng = np.random.RandomState(case["seed"])
        fit = Orientation(rng.standard_normal((12, 3)).dot(np.diag([5.0, 2.0, 0.3]).dot(g.plane_frame(case["strike"], case["dip"], case["k"]))))
        A, d = np.array(fit.axes), np.diag(np.asarray(fit.covariance_matrix))
        s = np.asarray(fit.singular_values)
        expect(np.allclose(d, 4 * s ** 3 / fit.n, rtol=1e-6), "noise covariance of the fit {}", d)
        if case["ell"]:
            args["ellipse"] = True
        out = fit.error_coords(**args)
        one = fit.plane_errors(sheet="upper", n=n, traditional_layout=case["trad"])
        check_sheet(one, A, d, 1.0, "upper", n, case["trad"])
    else:
        out = stereonet.error_coords(A, np.diag(d), **args)
    rings = {"upper", "lower"} | ({"ellipse"} if case["ell"] else set())
    if case["levels"] is None:
        expect(set(out) == {"nominal"} | rings, "keys {}", set(out))
        sets = {1.0: out}
    else:
        expect(set(out) == {"nominal"} | set(case["levels"]), "keys {}", set(out))
        sets = {l: out[l] for l in case["levels"]}
    check_sheet(np.radians(out["nominal"]), A, d, 1.0, "nominal", n, case["trad"])
    for l, m in sets.items():
        expect(set(m) - {"nominal"} == rings if case["levels"] is None else set(m) == rings, "level {} has {}", l, set(m))
        for sheet in ("upper", "lower"):
            expect(isinstance(m[sheet], list), "positions are not plain lists")
            check_sheet(np.radians(m[sheet]), A, d, l, sheet, n, case["trad"])
        if case["ell"]:
            p = np.radians(m["ellipse"])
            w = k.local(k.normal_vectors(p, case["trad"]), A)
            expect(len(p) == n and np.all(w[:, 2] > 0), "ellipse: {} positions, {} asked, or on the wrong side", len(p), n)
            res = k.normal_cone_residual(w, d, l)
            expect(res.max() <= tol(d, l), "ellipse of level {} is off the normal cone by {}", l, res.max())
    return [case["which"], "levels" if case["levels"] else "one level"], case["dip"] > 0 and n >= 8
