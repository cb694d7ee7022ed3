"""C23: summary figures of a fit show its data and its uncertainty."""
from ..core import Check, Skip, expect
from .. import gens as g, oracle
from ..gens import np, st
import math
import re

import matplotlib.pyplot as plt

from attitude import Orientation
from attitude.display import plot_aligned, error_comparison
from attitude.error import axes as eax
from attitude.display.plot.cov_types.misc import ci, percentiles
from attitude.display.plot.cov_types.regressions import bootstrap_noise, bootstrap_resampled

check = Check("C23", rule=(
    "Drawn full-rank clouds (3 to 60 points, some of 10 001 to 30 000) with any orientation and offset; the figure is taken apart: plotted points compared "
    "with coordinates of the data along the fitted axes, error bands with the closed-form hyperbolas of the error model, quoted numbers with both. "
    "Non-trivial: a plane that is not level."),
    assumptions=["default size of the comparison figure is not claimed; its 'Variance' band is not claimed"])

clouds = g.frames(sizes=g.sizes_small, max_offset=1e3, size_range=(1, 1e3), min_gap=1.02, max_gap=30, min_ratio=0.003, max_ratio=0.5)


def aligned(fit, P):
    """Data along the long, the short and the upward normal axis."""
    A = np.asarray(fit.axes, float)
    C = P - P.mean(axis=0)
    R = C.dot(A.T)
    if A[2][2] < 0:
        R[:, 2] *= -1
    return R


def markers(ax):
    out = [np.array(l.get_xydata(), float) for l in ax.lines if l.get_marker() not in (None, "None", "", " ")]
    out += [np.array(c.get_offsets(), float) for c in ax.collections if len(c.get_offsets()) > 1 or len(c.get_paths()) == 1 and c.get_sizes() is not None and len(np.ravel(c.get_sizes()))] \
        if not out else []
    return out


def traces(ax):
    """Straight lines drawn without markers, as their two ends."""
    return [np.array(l.get_xydata(), float)[[0, -1]] for l in ax.lines if l.get_marker() in (None, "None", "", " ")]


def cloud_equal(got, want, tol, ordered=True):
    return got.shape == want.shape and (np.abs(got - want).max() <= tol if len(want) else True)


def band(poly, h, a, x0, x1, tol, what):
    """The patch outlines +-sqrt(h2 (1 + x^2/ha)) from x0 to x1."""
    V = np.asarray(poly.get_xy(), float)
    x, y = V.T
    w = np.sqrt(h[2] * (1 + x ** 2 / h[a]))
    e = np.abs(np.abs(y) - w)
    expect(np.all(e <= tol + 1e-5 * w), "{}: band is {} wide at {}, the error {}", what, abs(y[e.argmax()]), x[e.argmax()], w[e.argmax()])
    for s in (1, -1):
        q = x[s * y > 0]
        expect(len(q) >= 50 and abs(q.min() - x0) <= tol and abs(q.max() - x1) <= tol, "{}: band covers {} .. {}, expected {} .. {}", what, q.min() if len(q) else None, q.max() if len(q) else None, x0, x1)
        expect(np.diff(np.sort(q)).max() <= (x1 - x0) / 20 + tol, "{}: gaps in the band", what)


def number(text, pattern):
    m = re.search(pattern, text)
    expect(m is not None, "figure text {!r}", text)
    return float(m.group(1))


@check.law(st.fixed_dictionaries(dict(c=clouds, many=st.one_of(st.just(0), st.just(0), st.just(0), st.integers(10001, 30000)), colormap=st.booleans(),
                                      sparse=st.one_of(st.none(), st.booleans()))), quick=400, thorough=6000)
def aligned_figure(case):
    P = g.build(case["c"])
    if case["many"]:
        r = np.random.RandomState(case["many"])
        k = r.randint(len(P), size=case["many"])
        P = P[k] + r.randn(case["many"], 3) * 1e-3 * np.ptp(P, axis=0).max()
    P = np.asarray(P, float)
    fit = Orientation(P.copy())
    R = aligned(fit, P)
    h = oracle.sampling_axes(fit.eigenvalues, len(P))
    kw = {}
    if case["colormap"]:
        kw["colormap"] = "viridis"
    if case["sparse"] is not None:
        kw["sparse"] = case["sparse"]
    fig = plot_aligned(fit, **kw)
    ax = [a for a in fig.axes if a.lines or a.collections]
    expect(len(ax) == 3, "{} panels", len(fig.axes))
    size = np.abs(R).max()
    tol = 1e-7 * size + 1e-9
    lengths = np.ptp(R, axis=0)
    for k, (a, b) in enumerate([(0, 1), (0, 2), (1, 2)]):
        m = markers(ax[k])
        expect(len(m) == 1, "panel {} has {} point sets", k, len(m))
        want = R[:, [a, b]]
        if len(P) > 10000 and case["sparse"] is not False:
            # thinned: at most 10000, each of them a data point, in order, from all of the data
            from scipy.spatial import cKDTree
            expect(1000 <= len(m[0]) <= 10000, "{} of {} points are drawn", len(m[0]), len(P))
            d, ix = cKDTree(want).query(m[0])
            expect(d.max() <= tol, "panel {} shows points that are not in the data", k)
            expect(ix.max() > 0.9 * len(P), "thinning drops the end of the data")
        else:
            expect(cloud_equal(m[0], want, tol), "panel {}: the plotted points are not the data along axes {} and {}", k, a, b)
        # the axes are drawn where they are, over the extent of the data, and to scale
        for d, n in ((0, a),) if k else ((0, a), (1, b)):
            ends = np.zeros((2, 2))
            ends[:, d] = R[:, n].min(), R[:, n].max()
            expect(any(np.abs(e[np.argsort(e[:, d])] - ends).max() <= tol for e in traces(ax[k])), "panel {}: no line along axis {} over the extent of the data", k, n)
        asp = ax[k].get_aspect()
        expect(asp == "equal" or asp == 1, "panel {} is not to scale: aspect {}", k, asp)
        if case["colormap"]:
            col = [np.asarray(c.get_array(), float) for c in ax[k].collections if c.get_array() is not None]
            z = R[ix, 2] if len(P) > 10000 and case["sparse"] is not False else R[:, 2]
            expect(len(col) == 1 and len(col[0]) == len(z) and np.abs(col[0] - z).max() <= tol, "panel {}: points are not coloured by their residual", k)
        text = " ".join(t.get_text() for t in ax[k].texts)
        if k:
            expect(len(ax[k].patches) == 1, "panel {} has {} error bands", k, len(ax[k].patches))
            band(ax[k].patches[0], h, a, 1.2 * R[:, 0].min(), 1.2 * R[:, 0].max(), 1e-6 * size, "panel %d" % k)
            nums = [float(x) for x in re.findall(r"[-+]?\d+\.?\d*(?:e[-+]?\d+)?", text.replace("95%", ""))]
            ang = math.degrees(2 * math.atan2(math.sqrt(h[2]), math.sqrt(h[a])))
            expect(any(abs(v - lengths[a]) <= 1e-6 * lengths[a] + 1e-6 for v in nums), "length {} of axis {} is quoted as {!r}", lengths[a], a, text)
            expect(any(abs(v - ang) <= 0.0051 + 1e-6 * ang for v in nums), "angular error {} of axis {} is quoted as {!r}", ang, a, text)
    text = " ".join(t.get_text() for t in fig.texts)
    nums = [float(x) for x in re.findall(r"\d+\.?\d*", text)]
    expect(any(abs(v - lengths[2]) <= 1e-6 * lengths[2] + 1e-6 for v in nums), "residual extent {} is quoted as {!r}", lengths[2], text)
    return ["many" if case["many"] else "few", "colormap" if case["colormap"] else "plain"], case["c"]["dip"] > 0 if "dip" in case["c"] else True


@check.law(st.fixed_dictionaries(dict(c=clouds, width=g.logfloat(1e-2, 1e4), height=st.one_of(st.none(), g.logfloat(1e-2, 1e3)),
                                      aspect=st.one_of(st.none(), st.just("equal"), st.floats(0.5, 10)), boot=st.integers(0, 60), method=st.sampled_from([None, None, "sampling", "noise", "francq"]))), quick=800, thorough=12000)
def comparison_figure(case):
    P = np.asarray(g.build(case["c"]), float)
    fit = Orientation(P.copy())
    if case["method"]:
        # the model selected for the fit has no say in what the bands show
        fit.method = getattr(eax, case["method"] + "_axes")
    kw = dict(width=case["width"])
    if case["height"]:
        kw["height"] = case["height"]
    if case["aspect"]:
        kw["aspect_ratio"] = case["aspect"]
    boot = case["boot"] == 1
    np.random.seed(case["boot"])
    fig = error_comparison(fit, do_bootstrap=boot, **kw)
    ax = fig.axes[0]
    w = case["width"] / 2
    height = case["height"] or case["width"] / 25
    expect(np.allclose(ax.get_xlim(), (-w, w)) and np.allclose(ax.get_ylim(), (-height / 2, height / 2)), "limits {} {}", ax.get_xlim(), ax.get_ylim())
    got = ax.get_aspect()
    want = {None: ("auto",), "equal": ("equal", 1.0)}.get(case["aspect"], (case["aspect"],))
    expect(got in want, "aspect ratio {} was asked for, is {}", case["aspect"], got)
    C = P - P.mean(axis=0)
    R = C.dot(np.asarray(fit.axes, float).T)
    tol = 1e-7 * (np.abs(R).max() + case["width"])
    m = markers(ax)
    expect(len(m) == 1 and cloud_equal(m[0], R[:, 1:], tol), "the plotted points are not the data across the short section")
    nom = [l for l in ax.lines if l.get_label() == "Nominal fit"]
    expect(len(nom) == 1 and np.allclose(np.asarray(nom[0].get_xydata()), [[-w, 0], [w, 0]]), "nominal line")
    ev = fit.eigenvalues
    for name, h in (("Sampling-based", oracle.sampling_axes(ev, len(P))), ("Noise-based", oracle.noise_axes(ev, len(P)))):
        p = [p for p in ax.patches if p.get_label() == name]
        expect(len(p) == 1, "{} {} bands", len(p), name)
        if h[1] < 1e-6 * ev[1]:
            raise Skip("no error axis left")
        band(p[0], h, 1, -w, w, 1e-6 * case["width"], name)
    leg = [t.get_text() for t in ax.get_legend().get_texts()]
    expect(leg[0] == "Nominal fit" and {"Sampling-based", "Noise-based"} <= set(leg) and ("Noise bootstrap" in leg) == boot, "legend {}", leg)
    if boot:
        b = [c for c in ax.collections if c.get_label() == "Noise bootstrap"]
        expect(len(b) == 1, "{} bootstrap bands", len(b))
        V = b[0].get_paths()[0].vertices
        expect(np.all(np.isfinite(V)) and abs(V[:, 0].min() + w) < tol and abs(V[:, 0].max() - w) < tol, "bootstrap band covers {} .. {}", V[:, 0].min(), V[:, 0].max())
    return ["bootstrap" if boot else "plain"], True


@check.law(st.fixed_dictionaries(dict(seed=g.seeds, n=st.integers(8, 60), spread=st.floats(20, 200), longer=st.floats(2, 5), noise=st.floats(0.05, 5), dip=st.floats(0, 90), az=st.floats(0, 360))), quick=32, thorough=400)
def bootstrap_band(case):
    """The bootstrapped band is the 95 % range of lines through the data with noise of at least one unit added."""
    r = np.random.RandomState(case["seed"])
    n, s1 = case["n"], case["spread"]
    X = r.randn(n, 3)
    X -= X.mean(axis=0)
    U = np.linalg.qr(X)[0] * math.sqrt(n)                               # uncorrelated, unit variance
    s2 = case["noise"]
    if s2 > s1 / 20:
        s2 = s1 / 20
    L = U * [s1 * case["longer"], s1, s2]
    d, a = math.radians(case["dip"]), math.radians(case["az"])
    T = np.array([[1, 0, 0], [0, math.cos(d), -math.sin(d)], [0, math.sin(d), math.cos(d)]]).dot(np.array([[math.cos(a), -math.sin(a), 0], [math.sin(a), math.cos(a), 0], [0, 0, 1]]))
    fit = Orientation(L.dot(T))
    np.random.seed(case["seed"] % 2**32)
    fig = error_comparison(fit, do_bootstrap=True, width=2 * s1)
    ax = fig.axes[0]
    b = [c for c in ax.collections if c.get_label() == "Noise bootstrap"]
    expect(len(b) == 1, "{} bootstrap bands", len(b))
    V = b[0].get_paths()[0].vertices
    s = max(1.0, s2)
    for x, k in ((0.0, 1.0), (-s1, math.sqrt(2)), (s1, math.sqrt(2))):
        y = V[np.abs(V[:, 0] - x) < 1e-6 * s1, 1]
        half = 1.96 * k * s / math.sqrt(n)
        expect(len(y) >= 2 and 0.8 * half < y.max() < 1.25 * half and 0.8 * half < -y.min() < 1.25 * half, "bootstrapped band at {} runs from {} to {}, should be about -+{}", x, y.min(), y.max(), half)
    return ["noise over 1" if s2 > 1 else "noise below 1"], True


@check.law(st.fixed_dictionaries(dict(rows=st.integers(1, 40), cols=st.integers(1, 4), seed=g.seeds, which=st.one_of(st.none(), st.floats(1, 99)), pcts=st.lists(st.floats(0, 100), min_size=1, max_size=4), axis=st.sampled_from([None, 0, 1]))), quick=400, thorough=8000)
def percentile_ranges(case):
    """Percentiles and confidence ranges of samples, as drawn in the comparison."""
    A = np.random.RandomState(case["seed"]).randn(case["rows"], case["cols"]) * 3
    kw = {} if case["which"] is None else dict(which=case["which"])
    lo = (100 - (95 if case["which"] is None else case["which"])) / 2
    want = np.percentile(A, [lo, 100 - lo], axis=case["axis"])
    got = np.asarray(ci(A.copy(), axis=case["axis"], **kw))
    expect(got.shape == want.shape and np.abs(got - want).max() < 1e-9, "confidence range {}, should be {}", got, want)
    want = np.percentile(A, case["pcts"], axis=case["axis"])
    got = np.asarray(percentiles(A.copy(), case["pcts"], axis=case["axis"]))
    expect(got.shape == want.shape and np.abs(got - want).max() < 1e-9, "percentiles {}: {}, should be {}", case["pcts"], got, want)
    got = np.asarray(percentiles(A.copy(), case["pcts"][0], axis=case["axis"]))
    expect(np.abs(got - want[0]).max() < 1e-9, "percentile {}: {}, should be {}", case["pcts"][0], got, want[0])
    return ["axis %s" % case["axis"]], A.size > 2


@check.law(st.fixed_dictionaries(dict(rows=st.integers(2, 12), seed=g.seeds, std=st.one_of(g.logfloat(1e-3, 1e3), st.none()), symmetric=st.sampled_from([None, True, False]))), quick=150, thorough=2000)
def bootstrap_samples(case):
    """What the bootstrap functions hand to the statistic: resampled rows, or the data with noise of the given size."""
    r = np.random.RandomState(case["seed"])
    A = r.randn(case["rows"], 3) * 10 + r.randn(3) * 100
    keep = A.copy()
    rows = {tuple(x) for x in A}
    S = bootstrap_resampled(A, lambda d: np.array(d), n=40)
    expect(S.shape == (40,) + A.shape and all(tuple(x) in rows for d in S for x in d), "a resampled data set has other rows than the data")
    expect(case["rows"] < 3 or len({tuple(map(tuple, d)) for d in S}) > 2, "resampling does not vary")
    np.random.seed(case["seed"] % 2**32)
    kw = {} if case["symmetric"] is None else dict(symmetric=case["symmetric"])
    m = 4000 // case["rows"]
    std = case["std"]
    if std is None:
        std = 1.0
    else:
        kw["std"] = std
    D = bootstrap_noise(A, lambda d: np.array(d), n=m, **kw) - A
    expect(np.array_equal(A, keep), "the data were changed")
    expect(D.shape == (m,) + A.shape, "{} data sets of {}, asked for {}", len(D), D.shape[1:], m)
    for k in range(3):
        v = D[:, :, k]
        if k < 2 and case["symmetric"] is False:
            expect(np.all(v == 0), "noise on axis {} though only the vertical was to have noise", k)
        else:
            expect(0.85 < v.std() / std < 1.15 and abs(v.mean()) < 0.12 * std, "noise of standard deviation {} and mean {}, asked for {}", v.std(), v.mean(), std)
    return ["symmetric %s" % case["symmetric"]], True
