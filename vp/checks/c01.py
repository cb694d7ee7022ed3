"""C01: the fit is the total-least-squares plane of the data."""
from ..core import Check, expect, Skip
from .. import gens as g
from ..gens import np, st
import math

from attitude import Orientation

check = Check("C01", rule=(
    "Clouds are drawn either point by point (3-9 points, integer coordinates over a drawn "
    "power of ten and offset; several dtypes and memory layouts; coincident/collinear clouds "
    "included) or built from a drawn principal frame, singular values, centre and shape seed. "
    "Non-trivial: the cloud spans a plane (second singular value clearly above round-off)."),
    assumptions=["oracle: scatter matrix / exact frame by construction, compensated sums for the centre",
                 "tolerances scale with coordinate magnitude (offset) and dtype epsilon"])


def exact_center(a):
    return np.array([math.fsum(float(x) for x in a[:, i]) / len(a) for i in range(a.shape[1])])


def invariants(fit, a, dim=3):
    """Everything a least-squares fit must satisfy whatever the data."""
    af = np.asarray(a, dtype=float)
    n = len(af)
    eps = np.finfo(a.dtype).eps if a.dtype.kind == "f" else g.EPS
    mag = np.abs(af).max() if af.size else 0.0
    c = exact_center(af)
    tolc = eps * mag * (8 * math.sqrt(n) + n / 2) + 1e-300   # n/2: worst case of a plain running sum
    expect(np.shape(fit.center) == (dim,), "center has shape {}", np.shape(fit.center))
    expect(np.all(np.abs(np.asarray(fit.center, float) - c) <= tolc),
           "center {} is not the mean {}", fit.center, c)
    x = af - c
    ca = np.asarray(fit.centered_array, float)
    expect(ca.shape == af.shape and np.all(np.abs(ca - x) <= 4 * tolc),
           "centered_array is not the data minus its mean")
    expect(np.array_equal(np.asarray(fit.array, float), af), "array is not the input")
    V = np.asarray(fit.axes, float)
    s = np.asarray(fit.singular_values, float)
    expect(V.shape == (dim, dim) and s.shape == (dim,), "axes/singular values have shape {} {}",
           V.shape, s.shape)
    expect(np.all(np.isfinite(V)) and np.all(np.isfinite(s)), "non-finite axes or singular values")
    rel = 1e-8 if eps < 1e-10 else 2e-4
    expect(np.abs(V.dot(V.T) - np.eye(dim)).max() < rel, "axes not orthonormal: {}", V.tolist())
    scale = np.linalg.norm(x)
    tol = rel * scale + 8 * tolc * math.sqrt(n)
    expect(np.all(s >= -tol) and np.all(np.diff(s) <= tol), "singular values not descending: {}", s)
    expect(np.all(np.abs(np.linalg.norm(x.dot(V.T), axis=0) - s) <= tol),
           "singular values {} are not the data norms along the axes {}",
           s, np.linalg.norm(x.dot(V.T), axis=0))
    # Cross terms vanish: the axes really are principal
    y = x.dot(V.T)
    m = y.T.dot(y)
    off = m - np.diag(np.diag(m))
    expect(np.abs(off).max() <= tol * (scale + tol), "data correlated in the principal frame: {}",
           off.tolist())
    # aligned coordinates and residuals
    rot = np.asarray(fit.rotated(), float)
    expect(rot.shape == af.shape and np.all(np.abs(rot - y) <= tol), "rotated() is not the data in the principal frame")
    res = np.asarray(fit.residuals(), float)
    nrm = V[-1]
    expect(res.shape == af.shape and np.all(np.abs(res - np.outer(x.dot(nrm), nrm)) <= tol),
           "residuals are not the out-of-plane components")
    ev = np.asarray(fit.eigenvalues, float)
    var = y.var(axis=0, ddof=1)
    expect(np.all(np.abs(ev - var) <= 4 * tol * (scale + tol) / max(n - 1, 1)),
           "eigenvalues {} are not the sample variances {}", ev, var)
    return s, scale, tol


@check.law(g.explicit(), quick=4000, thorough=60000)
def explicit_cloud(case):
    a = g.build(case)
    before = np.array(a, copy=True)
    fit = Orientation(a)
    s, scale, tol = invariants(fit, a)
    expect(np.array_equal(before, a), "input array was modified")
    # SVD reconstruction of the data
    if s[2] > 1e3 * tol:
        rec = np.dot(np.asarray(fit.U, float), np.dot(np.asarray(fit.sigma, float), np.asarray(fit.axes, float)))
        expect(np.all(np.abs(rec - np.asarray(fit.centered_array, float)) <= 10 * tol),
               "U sigma V does not rebuild the centred data")
    if scale > 100 * tol:
        f = fit.explained_variance
        want = (s[0] ** 2 + s[1] ** 2) / (s ** 2).sum()
        expect(abs(f - want) < 1e-4 + 4 * tol / scale, "explained variance {} != {}", f, want)
    return g.labels_of(case) + ["planar" if s[1] > 100 * tol else "collinear"], bool(s[1] > 100 * tol)


big = st.one_of(g.sizes, g.sizes, g.sizes, st.integers(1000, 3000), st.sampled_from([9999, 10000, 10001, 20001]))


@check.law(g.frames(sizes=big, max_offset=1e7, size_range=(1e-9, 1e6), min_ratio=1e-7, max_ratio=0.95,
                    dtype=("f8", "f8", "f8")), quick=2000, thorough=30000)
def known_frame(case):
    """The fitted plane is the one the cloud was built around."""
    a = g.build(case)
    fit = Orientation(a)
    s, scale, tol = invariants(fit, a)
    f = g.frame_of(case)
    ds, dn, d0 = g.cond(case)
    want = np.array(case["s"])
    expect(np.all(np.abs(s - want) <= 40 * ds + 1e-9 * want[0]), "singular values {} != {}", s, want)
    nt = False
    if dn < 1e-3:
        nt = True
        ang = math.radians(g.axis_angle_deg(fit.axes[2], f[2]))
        expect(ang <= 20 * dn + 1e-8, "normal {} is not the plane's {} (off by {} rad)",
               fit.axes[2], f[2], ang)
        ang = math.radians(g.axis_angle_deg(fit.normal, f[2]))
        expect(ang <= 20 * dn + 1e-8 and fit.normal[2] >= -1e-9, "normal {} is not the upward normal {}",
               fit.normal, f[2])
        if d0 < 1e-3:
            ang = math.radians(g.axis_angle_deg(fit.axes[0], f[0]))
            expect(ang <= 20 * (d0 + dn) + 1e-8, "axis 0 {} is not {}", fit.axes[0], f[0])
    ev = fit.explained_variance
    w = (want[:2] ** 2).sum() / (want ** 2).sum()
    expect(abs(ev - w) < 1e-6 + 40 * ds / want[0], "explained variance {} != {}", ev, w)
    return g.labels_of(case) + (["n>=1000"] if case["n"] >= 1000 else []), nt


@check.law(st.fixed_dictionaries(dict(cloud=g.frames(sizes=st.integers(4, 60), max_offset=1e5, size_range=(1e-4, 1e4), min_ratio=1e-3, max_ratio=0.9),
                                      times=st.lists(st.integers(1, 12), min_size=1, max_size=12), order=st.booleans())), quick=1200, thorough=20000)
def repeated_points(case):
    """Each of several equal points counts."""
    a = np.array(g.build(case["cloud"]), float)
    k = np.resize(case["times"], len(a))
    b = np.repeat(a, k, axis=0)
    if case["order"]:
        b = b[np.random.RandomState(len(b)).permutation(len(b))]
    fit = Orientation(b)
    s, scale, tol = invariants(fit, b)
    x = a - (a * k[:, None]).sum(axis=0) / k.sum()
    want = np.sqrt(np.maximum(np.linalg.eigvalsh((x * k[:, None]).T.dot(x))[::-1], 0))
    expect(np.all(np.abs(s ** 2 - want ** 2) <= 1e-9 * want[0] ** 2 + 40 * tol * (scale + tol)), "singular values {}, expected {} with every point counted", s, want)
    expect(fit.n == len(b) and np.asarray(fit.U).shape == b.shape, "{} of {} points", fit.n, len(b))
    return ["n>100"] if len(b) > 100 else [], bool(len(set(k.tolist())) > 1)


@st.composite
def rivals(draw):
    c = draw(g.explicit(min_n=4, max_n=10))
    alt = draw(st.lists(st.tuples(st.lists(st.integers(-10, 10), min_size=3, max_size=3),
                                  st.floats(-1, 1), st.integers(0, 8)), min_size=4, max_size=10))
    return dict(cloud=c, alt=[[list(a), b, e] for a, b, e in alt])


@check.law(rivals(), quick=2000, thorough=40000)
def no_better_plane(case):
    """No generated plane has a smaller sum of squared perpendicular distances."""
    a = g.build(case["cloud"])
    fit = Orientation(a)
    af = np.asarray(a, float)
    c = exact_center(af)
    x = af - c
    n0 = np.asarray(fit.axes[2], float)
    c0 = np.asarray(fit.center, float)
    scale = (x ** 2).sum()
    eps = np.finfo(a.dtype).eps if a.dtype.kind == "f" else g.EPS
    tol = scale * (1e-9 if eps < 1e-10 else 1e-3) + len(af) * (50 * eps * np.abs(af).max()) ** 2 * 9 \
        + 60 * eps * np.abs(af).max() * math.sqrt(scale * len(af))
    best = (((af - c0).dot(n0)) ** 2).sum()
    for d, off, e in case["alt"]:
        d = np.array(d, float)
        # arbitrary rivals (e = 0) and small perturbations of the fitted plane
        v = d if e == 0 else n0 + d * 10.0 ** -e
        if np.linalg.norm(v) == 0:
            continue
        v = v / np.linalg.norm(v)
        t = off * math.sqrt(scale / len(af)) * (1 if e == 0 else 10.0 ** -e)
        sse = ((x.dot(v) - t) ** 2).sum()
        expect(sse >= best - tol, "plane {} (sse {}) beats the fit {} (sse {})", v, sse, n0, best)
    return g.labels_of(case["cloud"]), bool(scale > 0)


@check.law(st.fixed_dictionaries(dict(
    pts=st.lists(st.lists(st.floats(-1e6, 1e6), min_size=3, max_size=3), min_size=1, max_size=2),
    w=st.booleans())), quick=120, thorough=1000)
def too_few_points(case):
    a = np.array(case["pts"], float)
    try:
        Orientation(a, weights=np.ones(3)) if case["w"] else Orientation(a)
    except ValueError:
        return ["n=%d" % len(a)], True
    expect(False, "a fit to {} point(s) was accepted", len(a))


@check.law(st.fixed_dictionaries(dict(
    pts=st.lists(st.lists(st.integers(-99, 99), min_size=2, max_size=2), min_size=3, max_size=9),
    off=st.integers(-1000, 1000))), quick=500, thorough=5000)
def planar_data(case):
    """Two-dimensional data are fitted by a line under the same law."""
    a = np.array(case["pts"], float) + case["off"]
    fit = Orientation(a)
    s, scale, tol = invariants(fit, a, dim=2)
    return ["2d"], bool(s[0] > 100 * tol)
