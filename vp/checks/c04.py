"""C04: default (noise-based, 95%) uncertainties of a fit."""
from ..core import Check, expect
from .. import gens as g, oracle as o
from ..gens import np, st
import math

from attitude import Orientation
from attitude.error.axes import noise_axes

check = Check("C04", rule=(
    "Clouds built with drawn singular values and point counts (4 to thousands), from superbly to badly "
    "constrained; the reported hyperbolic axes and angular errors are compared with the closed form of the "
    "noise model (F quantile with 2 and n-2 degrees of freedom in closed form). Non-trivial: the singular "
    "values are resolved beyond round-off so the comparison is tight."),
    assumptions=["the error model is the one documented for the project (Faber noise variance, Fisher scaling, 2 degrees of freedom)"])

sizes = st.one_of(st.integers(4, 8), st.integers(9, 60), st.integers(61, 300), st.sampled_from([1000, 2500, 11000]))
clouds = g.frames(sizes=sizes, max_offset=1e4, size_range=(1e-3, 1e5), min_gap=1.0001, max_gap=1e3,
                  min_ratio=1e-4, max_ratio=0.99)


def reference(case):
    """(expected eigenvalues, relative uncertainty of each)"""
    s = np.array(case["s"])
    ds = 20 * g.cond(case)[0]
    return s ** 2 / (case["n"] - 1), 4 * ds / s + 1e-10


def close_axes(got, want, ev, rel, what):
    got = np.asarray(got, float)
    expect(got.shape == (3,) and np.all(np.isfinite(got)), "{} hyperbolic axes {}", what, got)
    lim = (rel + rel[2]) * 4 * np.maximum(np.maximum(ev, want), np.abs(got))
    expect(np.all(np.abs(got - want) <= lim), "{} hyperbolic axes {} expected {}", what, got, want)


@check.law(st.fixed_dictionaries(dict(cloud=clouds, length=g.logfloat(1e-6, 1e6))), quick=5000, thorough=150000)
def default_errors(case):
    c = case["cloud"]
    fit = Orientation(g.build(c))
    ev, rel = reference(c)
    h = np.asarray(fit.hyperbolic_axes, float)
    want = o.noise_axes(ev, c["n"])
    close_axes(h, want, ev, rel, "default")
    expect(np.allclose(h, np.asarray(noise_axes(fit), float), rtol=1e-9, atol=0), "hyperbolic_axes is not the noise model")
    expect(np.all(h >= 0), "negative hyperbolic axis {}", h)
    deg = fit.angular_errors()
    rad = fit.angular_errors(degrees=False)
    expect(isinstance(deg, tuple) and len(deg) == 2 and len(rad) == 2, "angular_errors() is {}", deg)
    for i in (0, 1):
        w = math.atan2(math.sqrt(h[2]), math.sqrt(h[i]))
        expect(abs(rad[i] - w) < 1e-12 and abs(deg[i] - math.degrees(w)) < 1e-9,
               "angular error {} is {} rad / {} deg, the hyperbola says {}", i, rad[i], deg[i], w)
        expect(0 <= deg[i] <= 90, "angular error {} outside [0, 90]", deg[i])
    # constrained fit: both in-plane axes keep their sign
    z = o.f2_quantile(0.95, c["n"] - 2)
    k = 2 * z / math.sqrt(c["n"] - 2)
    ok = k * math.sqrt(ev[2] / ev[1]) < 1 - 10 * rel[2]
    if ok:
        expect(deg[0] <= deg[1] * (1 + 1e-6) + 1e-9, "minimum error {} exceeds maximum {}", *deg)
    length = case["length"]
    e = float(fit.angular_error(length))
    expect(abs(e - math.atan2(h[2], length)) < 1e-12, "angular_error({}) = {}", length, e)
    return g.labels_of(c) + ["constrained" if ok else "unconstrained"], bool(rel[2] < 1e-4)


@check.law(st.fixed_dictionaries(dict(cloud=clouds, p=g.confidences, q=g.confidences)), quick=3000, thorough=100000)
def confidence(case):
    """Other confidence levels: closed form, and errors grow with confidence."""
    c = case["cloud"]
    fit = Orientation(g.build(c))
    ev, rel = reference(c)
    p, q = sorted((case["p"], case["q"]))
    hp = np.asarray(noise_axes(fit, confidence_level=p), float)
    hq = np.asarray(noise_axes(fit, confidence_level=q), float)
    close_axes(hp, o.noise_axes(ev, c["n"], p), ev, rel, "noise p=%g" % p)
    close_axes(hq, o.noise_axes(ev, c["n"], q), ev, rel, "noise p=%g" % q)
    k = 2 * o.f2_quantile(q, c["n"] - 2) / math.sqrt(c["n"] - 2)
    ok = k * math.sqrt(ev[2] / ev[1]) < 1 - 10 * rel[2]
    if ok:
        ap, aq = o.angular(hp), o.angular(hq)
        for i in (0, 1):
            expect(ap[i] <= aq[i] * (1 + 1e-9) + 1e-9, "error {} at {} exceeds {} at {}", ap[i], p, aq[i], q)
    return ["constrained" if ok else "unconstrained"], bool(rel[2] < 1e-4 and p < q)


@check.law(st.fixed_dictionaries(dict(
    cloud=g.frames(sizes=st.integers(6, 60), max_offset=1e3, size_range=(1e-1, 1e3), min_gap=1.1, max_gap=50,
                   min_ratio=1e-3, max_ratio=0.1), m=st.integers(2, 6), k=st.floats(1.05, 5))),
    quick=2000, thorough=50000)
def more_data_less_noise(case):
    """More points of the same spread, or less out-of-plane noise, never widen the errors."""
    c = dict(case["cloud"])
    n = c["n"]
    ref = np.array(Orientation(g.build(c)).angular_errors())
    ev = np.array(c["s"]) ** 2 / (n - 1)
    k = 2 * o.f2_quantile(0.95, n - 2) / math.sqrt(n - 2)
    if k * math.sqrt(ev[2] / ev[1]) > 0.9:
        return ["unconstrained"], False
    big = dict(c, n=n * case["m"])
    f = math.sqrt((big["n"] - 1) / (n - 1))
    big["s"] = [x * f for x in c["s"]]
    more = np.array(Orientation(g.build(big)).angular_errors())
    expect(np.all(more <= ref * (1 + 1e-4)), "errors grow from {} to {} with {}x the points", ref, more, case["m"])
    quiet = dict(c, s=[c["s"][0], c["s"][1], c["s"][2] / case["k"]])
    less = np.array(Orientation(g.build(quiet)).angular_errors())
    expect(np.all(less <= ref * (1 + 1e-4)), "errors grow from {} to {} with less noise", ref, less)
    return ["constrained"], True


@check.law(st.fixed_dictionaries(dict(strike=g.strikes, dip=g.dips, k=g.inplane, size=g.logfloat(1e-2, 1e4), b=st.floats(0.1, 1), off=st.lists(st.floats(-100, 100), min_size=3, max_size=3),
                                      p=g.confidences)), quick=1500, thorough=30000)
def three_points(case):
    """Three points leave no residual: the errors vanish, whatever the attitude and the confidence."""
    T = g.plane_frame(case["strike"], case["dip"], case["k"])
    uv = np.array([[1.0, 0.0], [-0.5, case["b"]], [-0.6, -case["b"]]]) * case["size"]
    a = uv.dot(T[:2]) + np.array(case["off"])
    fit = Orientation(a)
    e = np.array(fit.angular_errors())
    expect(np.all(np.isfinite(e)), "angular errors {} of three points", e)
    # the third singular value is round-off; the in-plane axes are at least 0.1 of the size
    s3 = 64 * g.EPS * (np.abs(a).max() + case["size"])
    lim = math.degrees(math.sqrt(2 * o.f2_quantile(0.95, 1)) * 4 * math.sqrt(s3 / (0.05 * case["size"]))) + 1e-9
    expect(np.all(e >= 0) and np.all(e <= lim), "angular errors {} of three points in a plane (round-off allows {})", e, lim)
    h = np.asarray(noise_axes(fit, confidence_level=case["p"]), float)
    expect(h.shape == (3,) and np.all(np.isfinite(h)), "hyperbolic axes {} at {}", h, case["p"])
    return [], case["dip"] > 0
