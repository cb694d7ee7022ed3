"""C10: the linear fit is ordinary least squares of elevation on position."""
from ..core import Check, Skip, expect
from .. import gens as g
from ..gens import np, st
from fractions import Fraction as Fr
import math

from attitude.orientation import LinearOrientation
from attitude.orientation.linear.regression import Regression

check = Check("C10", rule=(
    "Small integer clouds (3-9 points, exact rational solution of the normal equations as oracle) and larger float "
    "clouds around a plane of drawn gradient, given as n x 3 or 3 x n arrays or lists, at drawn offsets. "
    "Non-trivial: the horizontal positions span the plane (unique solution) and the points are not exactly coplanar."),
    assumptions=["condition number of the horizontal positions below 1e6 (beyond it rounding decides the answer)"])


def solve_exact(pts):
    """(coefficients, sse, inverse of X'X) of the centred problem, as Fractions."""
    n = len(pts)
    P = [[Fr(x) for x in p] for p in pts]
    m = [sum(p[i] for p in P) / n for i in range(3)]
    P = [[p[i] - m[i] for i in range(3)] for p in P]
    sxx = sum(p[0] * p[0] for p in P)
    sxy = sum(p[0] * p[1] for p in P)
    syy = sum(p[1] * p[1] for p in P)
    sxz = sum(p[0] * p[2] for p in P)
    syz = sum(p[1] * p[2] for p in P)
    det = sxx * syy - sxy * sxy
    if det == 0:
        return None
    a = (sxz * syy - syz * sxy) / det
    b = (syz * sxx - sxz * sxy) / det
    sse = sum((p[2] - a * p[0] - b * p[1]) ** 2 for p in P)
    inv = [[syy / det, -sxy / det, Fr(0)], [-sxy / det, sxx / det, Fr(0)], [Fr(0), Fr(0), Fr(1, n)]]
    return m, a, b, sse, inv


def give(a, how):
    if how == "transposed" and len(a) > 3:
        return a.T
    if how == "list":
        return a.tolist()
    if how == "zip" and len(a) > 3:
        return [tuple(c) for c in a.T.tolist()]
    return a


def attitude_of(lin, ga, gb, rotcov, tol, ctol):
    """strike/dip/errors of the plane z = ga x + gb y."""
    (strike, dip), err = lin.strike_dip(uncertainties=True)
    slope = math.hypot(ga, gb)
    expect(abs(dip - math.degrees(math.atan(slope))) <= tol, "dip {} of gradient ({}, {})", dip, ga, gb)
    expect(-180 - 1e-9 <= strike <= 360, "strike {}", strike)
    expect(tuple(lin.strike_dip()) == (strike, dip), "strike_dip depends on asking for uncertainties")
    if slope > 1e-6:
        # downhill azimuth, clockwise from north; strike is 90 degrees less
        want = math.degrees(math.atan2(-ga, -gb)) - 90
        expect(g.circ(strike, want) * slope <= tol * (1 + slope), "strike {} expected {} for gradient ({}, {})", strike, want % 360, ga, gb)
        d = lin.dip_direction()
        expect(g.circ(d[0], want + 90) * slope <= tol * (1 + slope) and abs(d[1] - dip) < 1e-9, "dip direction {}", d)
        az, sl = lin.gradient()
        expect(abs(math.degrees(sl) - dip) < 1e-9 and g.circ(math.degrees(az), strike) < 1e-9, "gradient {} {}", az, sl)
        # errors: standard errors of the slope along and across the dip direction
        u = np.array([ga, gb]) / slope
        v = np.array([-u[1], u[0]])
        cov = np.asarray(rotcov, float)[:2, :2]
        e = [math.degrees(math.sqrt(max(float(w.dot(cov).dot(w)), 0))) for w in (u, v)]
        m = math.degrees(math.sqrt(np.abs(cov).max()))
        # compared as variances: rounding of a vanishing variance is not a vanishing error
        vt = math.degrees(1) ** 2 * 8 * ctol + m * m * (1e-6 + math.radians(tol) / max(slope, 1e-3)) + 1e-24
        expect(len(err) == 2 and all(abs(x * x - y * y) <= vt for x, y in zip(err, e)),
               "errors {} expected {} (along, across dip)", err, e)
    return slope


@check.law(st.fixed_dictionaries(dict(
    pts=st.lists(st.lists(st.integers(-30, 30), min_size=3, max_size=3), min_size=3, max_size=9),
    off=st.lists(st.integers(-5000, 5000), min_size=3, max_size=3), den=st.sampled_from([1, 1, 2, 8, 1024, 2**20, 2**-20]),
    how=st.sampled_from(["array", "list", "transposed", "zip"]))), quick=6000, thorough=150000)
def exact(case):
    pts = [[Fr(x + o_) / Fr(case["den"]) for x, o_ in zip(p, case["off"])] for p in case["pts"]]
    sol = solve_exact(pts)
    if sol is None:
        return ["singular"], False
    m, a, b, sse, inv = sol
    arr = np.array([[float(x) for x in p] for p in pts])
    xy = arr[:, :2] - arr[:, :2].mean(axis=0)
    s = np.linalg.svd(xy, compute_uv=False)
    if s[1] <= 0 or s[0] / s[1] > 1e3:
        return ["ill-conditioned"], False
    zr = np.abs(arr).max() / s[1] + 1
    tol = 1e-11 * zr * (s[0] / s[1]) ** 2 * (1 + abs(float(a)) + abs(float(b)))
    src = give(arr.copy(), case["how"])
    keep = arr.copy()
    fit = Regression(src)
    c = np.asarray(fit.coefficients, float)
    expect(c.shape == (3,), "coefficients {}", c)
    expect(abs(c[0] - float(a)) <= tol and abs(c[1] - float(b)) <= tol, "coefficients {} expected {} {}", c, float(a), float(b))
    expect(abs(c[2]) <= tol * (1 + np.abs(arr).max()), "intercept of centred data is {}", c[2])
    n = len(pts)
    expect((fit.nobs, fit.ncoef, fit.df_e, fit.df_r) == (n, 3, n - 3, 2), "degrees of freedom {}", (fit.nobs, fit.ncoef, fit.df_e, fit.df_r))
    px, py, pz = fit.predictions
    cen = np.array([[float(x - mm) for x, mm in zip(p, m)] for p in pts])
    sc = np.abs(arr).max() + 1
    expect(np.abs(np.column_stack([px, py]) - cen[:, :2]).max() <= 1e-11 * sc, "prediction positions")
    zh = cen[:, 0] * float(a) + cen[:, 1] * float(b)
    ztol = tol * (1 + np.abs(cen).max()) * 4
    expect(np.abs(pz - zh).max() <= ztol, "predictions {} expected {}", pz, zh)
    r = np.asarray(fit.residuals, float)
    expect(np.abs(r - (cen[:, 2] - zh)).max() <= ztol, "residuals")
    cov = np.asarray(fit.covariance_matrix, float)
    iv = np.array([[float(x) for x in row] for row in inv])
    want = np.zeros((3, 3)) if n == 3 else float(sse) * iv
    ctol = 1e-9 * np.abs(want).max() + 40 * ztol * (math.sqrt(float(sse)) + ztol) * n * np.abs(iv).max()
    expect(cov.shape == (3, 3) and np.abs(cov - want).max() <= ctol, "covariance {} expected {}", cov.tolist(), want.tolist())
    se = np.asarray(fit.standard_errors(), float)
    if float(sse) > 1e-9 or n == 3:
        expect(np.allclose(se, np.sqrt(np.diag(want)), rtol=1e-4, atol=1e-9), "standard errors {} expected {}", se, np.sqrt(np.diag(want)))
    expect(np.array_equal(np.asarray(src if case["how"] in ("array", "list") else arr), keep), "the input changed")
    # the same numbers whatever was asked first
    again = Regression(give(arr.copy(), case["how"]))
    expect(np.allclose(again.covariance_matrix, cov, rtol=1e-9, atol=1e-15 + ctol), "covariance depends on query order")
    lin = LinearOrientation(give(arr.copy(), case["how"]))
    attitude_of(lin, float(a), float(b), want, math.degrees(tol) * 4 + 1e-7, ctol)
    return ["n=%d" % n, case["how"]] + (["exactly-planar"] if sse == 0 else []) + (["level"] if a == b == 0 else []), bool(sse > 0)


@check.law(st.fixed_dictionaries(dict(
    n=g.mostly(st.one_of(st.integers(4, 12), st.integers(13, 400)), st.integers(401, 5000)), seed=g.seeds, grad=st.floats(0, 20), az=g.strikes,
    noise=g.logfloat(1e-4, 1), scale=st.one_of(g.logfloat(1e-2, 1e4), g.logfloat(1e-7, 1e7)), far=st.booleans(), off=st.lists(st.floats(-1e4, 1e4), min_size=3, max_size=3),
    how=st.sampled_from(["array", "list", "transposed", "zip"]))), quick=3000, thorough=60000)
def known_plane(case):
    """Noise orthogonal to the design leaves the generating plane as the exact solution."""
    n = case["n"]
    U = g.shape_matrix(n, case["seed"], case["seed"] % 3)
    xy = U[:, :2] * case["scale"] * math.sqrt(n)
    ga, gb = (-case["grad"] * math.sin(math.radians(case["az"])), -case["grad"] * math.cos(math.radians(case["az"])))
    z = xy.dot([ga, gb]) + U[:, 2] * case["noise"] * case["scale"] * math.sqrt(n)
    off = np.array(case["off"])
    if not case["far"]:
        off = off * (case["scale"] * 1e-3)                              # as far as some extents, whatever the unit
    arr = np.column_stack([xy, z]) + off
    fit = Regression(give(arr, case["how"]))
    mag = (np.abs(off).max() + case["scale"] * (1 + case["grad"]) * math.sqrt(n))
    tol = 1e-12 * mag / case["scale"] * n
    if tol > 1e-3:
        raise Skip("offset swamps the extent")
    c = np.asarray(fit.coefficients, float)
    expect(abs(c[0] - ga) <= tol and abs(c[1] - gb) <= tol, "coefficients {} expected {} {}", c, ga, gb)
    sse = (case["noise"] * case["scale"]) ** 2 * n
    iv = np.diag([1 / (case["scale"] ** 2 * n)] * 2 + [1.0 / n])
    cov = np.asarray(fit.covariance_matrix, float)
    rel = 1e-8 + 20 * tol * (1 + case["grad"]) / case["noise"]
    if rel < 1e-2:
        expect(np.abs(cov - sse * iv)[:2, :2].max() <= 4 * rel * sse * iv[0, 0], "covariance {} expected {}", cov.tolist(), (sse * iv).tolist())
    lin = LinearOrientation(give(arr, case["how"]))
    if rel < 1e-2:
        attitude_of(lin, ga, gb, sse * iv, math.degrees(tol) * 4 + 1e-7 + 100 * rel * case["noise"],
                    4 * rel * sse * iv[0, 0])
    return [case["how"], "n>12" if n > 12 else "n<=12"] + (["level"] if case["grad"] == 0 else []), True
