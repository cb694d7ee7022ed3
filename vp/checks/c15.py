"""C15: cross-sections through the error surface are the right hyperbolas."""
from ..core import Check, expect
from .. import gens as g
from ..gens import np, st
import math

from matplotlib.figure import Figure
from matplotlib.backends.backend_agg import FigureCanvasAgg
import matplotlib.colors as mc

from attitude import Orientation
from attitude.display.hyperbola import hyperbolic_errors, HyperbolicErrors, hyperbola_values
from attitude.display import parametric
from attitude.display.plot.cov_types.regressions import hyperbola as regression_hyperbola

check = Check("C15", rule=(
    "Drawn error axes over several decades, slice directions, apparent dips (level to vertical), centres, abscissae (unsorted, "
    "repeated, zero) and fits; upper, lower and nominal lines compared point by point with the closed-form hyperbola; polygons "
    "compared with the lines. Non-trivial: at least one non-zero abscissa and both error axes finite."),
    assumptions=["slices contain the normal of the plane (the only ones the library draws); apparent dips below 1e-6 rad are drawn level"])

haxes = st.tuples(g.logfloat(1e-3, 1e4), g.logfloat(1e-3, 1), g.logfloat(1e-5, 1)).map(lambda t: [t[0], t[0] * t[1], t[0] * t[1] * t[2]])
xs = st.one_of(st.lists(st.floats(-1000, 1000), min_size=1, max_size=12),
               st.tuples(st.floats(-500, 0), st.floats(0, 500), g.mostly(st.integers(2, 60), st.integers(61, 1500))).map(lambda t: list(np.linspace(*t))),
               # whole numbers reach the code as integers
               st.lists(st.integers(-1000, 1000), min_size=1, max_size=12))
means = st.one_of(st.none(), st.lists(st.floats(-1e4, 1e4), min_size=2, max_size=2))
phi = g.angles(0, 360, special=(0, 45, 90, 180, 270))


def arr(x):
    """Whole numbers stay whole numbers on the way into the library."""
    return np.array(x) if all(type(v) is int for v in x) else np.array(x, float)


def expected(x, A0, A1, alpha, m, reverse=False):
    """nominal, lower, upper as 2 x n arrays, upper in reverse order."""
    x = np.asarray(x, float)
    y = A1 * np.sqrt(1 + (x / A0) ** 2)
    if reverse:
        alpha = -alpha
    c, s = math.cos(alpha), math.sin(alpha)
    R = np.array([[c, -s], [s, c]])
    m = np.zeros(2) if m is None else np.asarray(m, float)
    nom = R.dot(np.array([x, np.zeros_like(x)])) + m[:, None]
    lo = R.dot(np.array([x, -y])) + m[:, None]
    hi = R.dot(np.array([x, y])) + m[:, None]
    return nom, lo, hi[:, ::-1], y


def compare(got, want, x, y, m, what):
    expect(len(got) == 3, "{} arrays returned", len(got))
    scale = np.abs(x).max() + np.abs(y).max() + (0 if m is None else np.abs(m).max() * 1e-6)
    for name, a, b in zip(("nominal", "lower", "upper"), got, want[:3]):
        a = np.asarray(a, float)
        expect(a.shape == b.shape, "{} line has shape {}", name, a.shape)
        e = np.abs(a - b).max()
        expect(e <= 4e-6 * scale + 1e-12, "{}: {} line is off by {} (scale {})", what, name, e, scale)


@check.law(st.fixed_dictionaries(dict(h=haxes, x=xs, phi=phi, means=means, reverse=st.booleans(), default=st.booleans())), quick=4000, thorough=100000)
def aligned_slice(case):
    """Slices in the frame of the plane: any in-plane direction, no apparent dip."""
    h, x = np.array(case["h"]), arr(case["x"])
    kw = {}
    if case["means"] is not None:
        kw["means"] = np.array(case["means"])
    if case["default"]:
        f = math.pi / 2     # documented default: second axis against the normal
        if case["reverse"]:
            kw["reverse"] = True
    else:
        f = math.radians(case["phi"])
        kw["axes"] = np.array([[math.cos(f), math.sin(f), 0.0], [0.0, 0.0, 1.0]])
    A0 = 1 / math.sqrt(math.cos(f) ** 2 / h[0] + math.sin(f) ** 2 / h[1])
    keep = h.copy(), x.copy()
    got = hyperbolic_errors(h, x, **kw)
    w = expected(x, A0, math.sqrt(h[2]), 0.0, case["means"])
    compare(got, w, x, w[3], case["means"], "slice")
    expect(np.array_equal(h, keep[0]) and np.array_equal(x, keep[1]), "arguments changed")
    return ["default" if case["default"] else "direction"], bool(np.any(x != 0))


@check.law(st.fixed_dictionaries(dict(h=haxes, x=xs, strike=g.strikes, dip=g.dips, k=g.inplane, phi=phi, means=means,
                                      reverse=st.booleans(), flip=st.booleans())), quick=4000, thorough=100000)
def world_slice(case):
    """Slices in geographic coordinates: rotated by the apparent dip."""
    h, x = np.array(case["h"]), arr(case["x"])
    T = g.plane_frame(case["strike"], case["dip"], case["k"])
    f = math.radians(case["phi"])
    e1 = math.cos(f) * T[0] + math.sin(f) * T[1]
    e2 = -T[2] if case["flip"] else T[2]
    A0 = 1 / math.sqrt(math.cos(f) ** 2 / h[0] + math.sin(f) ** 2 / h[1])
    alpha = math.atan2(abs(e1[2]), math.hypot(e1[0], e1[1]))
    kw = dict(transformation=T, axes=np.array([e1, e2]))
    if case["reverse"]:
        kw["reverse"] = True
    if case["means"] is not None:
        kw["means"] = np.array(case["means"])
    keep = [np.array(v) for v in (h, x, T, kw["axes"])]
    got = hyperbolic_errors(h, x, **kw)
    expect(all(np.array_equal(*v) for v in zip(keep, (h, x, T, kw["axes"]))), "arguments changed")
    w = expected(x, A0, math.sqrt(h[2]), alpha, case["means"], case["reverse"])
    compare(got, w, x, w[3], case["means"], "apparent dip %.4f" % math.degrees(alpha))
    d = math.degrees(alpha)
    return ["level" if d < 1e-6 else "vertical" if d > 89.999 else "dipping"] + (["reverse"] if case["reverse"] else []), bool(np.any(x != 0))


@check.law(st.fixed_dictionaries(dict(h=haxes, x=xs, a=g.angles(0, 90), means=means)), quick=1500, thorough=30000)
def two_dimensional(case):
    h, x = np.array(case["h"])[[0, 2]], arr(case["x"])
    a = math.radians(case["a"])
    axes = np.array([[math.cos(a), math.sin(a)], [-math.sin(a), math.cos(a)]])
    kw = {} if case["means"] is None else dict(means=np.array(case["means"]))
    got = hyperbolic_errors(h, x, axes=axes, **kw)
    w = expected(x, math.sqrt(h[0]), math.sqrt(h[1]), a, case["means"])
    compare(got, w, x, w[3], case["means"], "2d")
    v = hyperbola_values(h, x)
    expect(np.allclose(v, w[3], rtol=1e-9), "hyperbola_values {} expected {}", v, w[3])
    return [], bool(np.any(x != 0))


clouds = g.frames(sizes=g.sizes_small, max_offset=1e3, size_range=(1, 100), min_gap=1.2, max_gap=10, min_ratio=0.01, max_ratio=0.3, layout=False)


@check.law(st.fixed_dictionaries(dict(cloud=clouds, which=st.sampled_from([0, 1]), far=g.logfloat(1e4, 1e6))), quick=1500, thorough=30000)
def asymptotes(case):
    """Far from the centre the band opens by exactly the fit's angular errors."""
    fit = Orientation(np.array(g.build(case["cloud"])))
    i = case["which"]
    h = np.asarray(fit.hyperbolic_axes, float)
    x = np.array([case["far"] * math.sqrt(h[i])])
    nom, lo, hi = hyperbolic_errors(h, x, axes=np.array([np.eye(3)[i], [0, 0, 1.0]]))
    ang = math.degrees(math.atan2(float(hi[1][0] - lo[1][0]) / 2, float(x[0])))
    expect(abs(ang - fit.angular_errors()[i]) < 1e-4, "band opens at {} deg, the fit's angular error is {}", ang, fit.angular_errors()[i])
    return ["axis%d" % i], True


def fresh_axes():
    fig = Figure(figsize=(2, 2))
    FigureCanvasAgg(fig)
    return fig.add_subplot(111)


@check.law(st.fixed_dictionaries(dict(h=haxes, x=xs, h2=haxes, x2=xs, phi=phi, means=means, means2=means, late=st.booleans(),
                                      color=st.sampled_from(["red", "#00ff00"]), key=st.sampled_from(["fc", "color", "facecolor"]))), quick=400, thorough=8000)
def polygon(case):
    """The drawn polygon is the band between the lower and upper lines, and follows updates."""
    f = math.radians(case["phi"])
    axes = np.array([[math.cos(f), math.sin(f), 0.0], [0.0, 0.0, 1.0]])
    kw = {} if case["means"] is None else dict(means=np.array(case["means"]))

    kw2 = {} if case["means2"] is None else dict(means=np.array(case["means2"]))

    def outline(h, x, m):
        h, x = np.array(h), arr(x)
        A0 = 1 / math.sqrt(math.cos(f) ** 2 / h[0] + math.sin(f) ** 2 / h[1])
        nom, lo, hi, y = expected(x, A0, math.sqrt(h[2]), 0.0, m)
        return nom, np.concatenate([lo, hi], axis=1).T, np.abs(x).max() + np.abs(y).max() + np.abs(lo).max() * 1e-6

    def same(e, h, x, m):
        nom, want, scale = outline(h, x, m)
        got = np.asarray(e.poly.get_xy(), float)
        if len(got) == len(want) + 1:
            expect(np.array_equal(got[0], got[-1]), "polygon closes elsewhere")
            got = got[:-1]
        expect(got.shape == want.shape and np.abs(got - want).max() <= 4e-6 * scale, "polygon is not the error band")
        return nom, scale
    ax = fresh_axes()
    style = {case["key"]: case["color"]}
    if case["late"]:
        e = HyperbolicErrors()
        e.plot(ax, **style)
        e.update_data(np.array(case["h"]), arr(case["x"]), axes=axes, **kw)
    else:
        e = HyperbolicErrors(np.array(case["h"]), arr(case["x"]), axes=axes, **kw)
        e.plot(ax, **style)
    expect(len(ax.patches) == 1, "{} patches", len(ax.patches))
    same(e, case["h"], case["x"], case["means"])
    expect(np.allclose(ax.patches[0].get_facecolor()[:3], mc.to_rgb(case["color"])) and
           np.allclose(ax.patches[0].get_edgecolor()[:3], mc.to_rgb(case["color"])), "colours")
    e.update_data(np.array(case["h2"]), arr(case["x2"]), axes=axes, **kw2)
    nom, scale = same(e, case["h2"], case["x2"], case["means2"])
    e.plot_nominal(ax, color="black")
    expect(len(ax.lines) == 1 and np.abs(np.array(ax.lines[0].get_data()) - nom).max() <= 4e-6 * scale, "nominal line")
    return ["late" if case["late"] else "at once"], True


@check.law(st.fixed_dictionaries(dict(a=st.lists(g.logfloat(1e-3, 1e3), min_size=2, max_size=2), c=st.lists(st.floats(-100, 100), min_size=2, max_size=2),
                                      n=st.integers(8, 200), up=st.booleans(), nobs=st.integers(1, 500), level=st.floats(0.1, 5), x=xs)),
           quick=2000, thorough=40000)
def parametric_curves(case):
    a, c = np.array(case["a"]), np.array(case["c"])
    n = case["n"]
    x, y = parametric.ellipse(a, center=c, n=n)
    expect(len(x) == len(y) == n, "{} points, {} asked", len(x), n)
    r = ((x - c[0]) / a[0]) ** 2 + ((y - c[1]) / a[1]) ** 2
    t = 1e-9 * (1 + np.abs(c).max() / a.min())
    expect(np.abs(r - 1).max() <= t, "ellipse points off by {}", np.abs(r - 1).max())
    th = np.unwrap(np.arctan2((y - c[1]) / a[1], (x - c[0]) / a[0]))
    expect(abs(abs(th[-1] - th[0]) - 2 * math.pi) < 1e-3 + t * 1e3, "ellipse is not closed")
    x, y = parametric.hyperbola(a, center=c, n=n, opens_up=case["up"])
    ok = np.isfinite(x) & np.isfinite(y)
    expect(ok.sum() >= n - 4 and len(x) == n, "{} of {} hyperbola points are missing", n - ok.sum(), n)
    u, v = (x[ok] - c[0]) / a[0], (y[ok] - c[1]) / a[1]
    if not case["up"]:
        u, v = v, u
    big = 1 + v ** 2
    expect(np.all(np.abs(v ** 2 - u ** 2 - 1) <= 1e-9 * big * (1 + np.abs(c).max() / a.min())), "hyperbola points off the curve (opens up: {})", case["up"])
    expect(np.any(v > 0) and np.any(v < 0), "a branch of the hyperbola is missing")
    d = parametric.ellipse(a)
    expect(len(d[0]) == 500 and np.allclose((d[0] / a[0]) ** 2 + (d[1] / a[1]) ** 2, 1), "default centre/size of the ellipse")
    d = [np.asarray(v)[np.isfinite(x_) & np.isfinite(y_)] for x_, y_ in [parametric.hyperbola(a)] for v in (x_, y_)]
    u, v = d[0] / a[0], d[1] / a[1]
    expect(len(u) >= 496 and np.all(np.abs(v ** 2 - u ** 2 - 1) <= 1e-9 * (1 + v ** 2)), "hyperbola with nothing but its axes given does not open along y around the origin")
    # regression-style band
    xv = arr(case["x"])
    m = c
    for nobs, level, rkw in ((case["nobs"], case["level"], dict(n=case["nobs"], level=case["level"])), (1, 1, {})):
        xx, lo, hi = regression_hyperbola(a.copy(), np.identity(2), m, xv, **rkw)
        w = level * np.sqrt(a[1]) * np.sqrt(xv ** 2 / (a[0] * nobs) + 1.0 / nobs)
        s = 1e-9 * (np.abs(w).max() + np.abs(m).max() + np.abs(xv).max())
        expect(np.abs(xx - (xv + m[0])).max() <= s and np.abs(hi - (m[1] + w)).max() <= s and np.abs(lo - (m[1] - w)).max() <= s, "regression band")
    return ["up" if case["up"] else "sideways"], True


@check.law(st.fixed_dictionaries(dict(a=g.logfloat(1e-2, 1e3), f=st.floats(0.02, 3), foci=st.booleans(), inverse=st.booleans(), width=st.one_of(st.none(), st.floats(1, 500)))), quick=300, thorough=6000)
def conjugate_conics(case):
    """The figure of the error hyperbola, its asymptotes and foci, and the ellipse of normals, which touches the perpendiculars of the asymptotes."""
    a, b = case["a"], case["a"] * case["f"]
    axes = np.array([a, b])
    fig = Figure(figsize=(2, 2))
    FigureCanvasAgg(fig)
    ax = fig.add_subplot(111)
    kw = dict(plot_foci=case["foci"], plot_inverse_hyperbola=case["inverse"])
    if case["width"] is not None:
        kw["width"] = case["width"]
    parametric.plot_conjugate_conics(ax, axes, **kw)
    expect(np.array_equal(axes, [a, b]), "the axes were changed")
    hyp = lambda p, q: lambda x, y: np.all(np.abs((y / q) ** 2 - (x / p) ** 2 - 1) <= 1e-6 * (1 + (y / q) ** 2)) and y.min() < 0 < y.max()
    A = b * b / a
    curves = dict(hyperbola=hyp(a, b), variance=lambda x, y: np.abs((x / a) ** 2 + (y / b) ** 2 - 1).max() < 1e-6,
                  normals=lambda x, y: np.abs((x / A) ** 2 + (y / b - math.sqrt(2)) ** 2 - 1).max() < 1e-6)
    if case["inverse"]:
        curves["inverse"] = hyp(1 / a, 1 / b)
    slopes = {"asymptote": b / a, "other asymptote": -b / a, "tangent": a / b, "other tangent": -a / b}
    foci = dict(hyperbola=(math.hypot(a, b), -math.hypot(a, b)))
    if case["f"] < 1:
        e = math.sqrt(b * b - A * A)
        foci["normals"] = (math.sqrt(2) * b - e, math.sqrt(2) * b + e)
    found = set()
    for l in ax.lines:
        x, y = np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)
        ok = np.isfinite(x) & np.isfinite(y)
        x, y = x[ok], y[ok]
        if len(x) > 20:
            hit = [k for k, f in curves.items() if f(x, y)]
        elif np.all(x == 0):
            hit = ["foci of " + k for k, v in foci.items() if len(y) == 2 and np.allclose(sorted(y), sorted(v), rtol=1e-6, atol=1e-9 * b)]
            if not hit and case["f"] >= 1 and case["foci"]:
                continue    # the ellipse of normals is wider than high
        else:
            hit = [k for k, m in slopes.items() if np.abs(y - m * x).max() <= 1e-6 * np.abs(y).max() and x[0] * x[-1] < 0]
        expect(hit, "a line from {} to {} is no part of the figure", (x[0], y[0]), (x[-1], y[-1]))
        found.update(hit)
    want = set(curves) | set(slopes) | ({"foci of " + k for k in foci} if case["foci"] else set())
    expect(want <= found, "missing from the figure: {}", sorted(want - found))
    if case["width"] is not None:
        expect(np.allclose(ax.get_xlim(), [-case["width"] / 2, case["width"] / 2]), "width {} asked, shown {}", case["width"], ax.get_xlim())
    expect(ax.get_aspect() in (1, "equal"), "the figure is not to scale")
    return ["foci" if case["foci"] else "plain"], True
