"""C14: plotted error areas sit where the measurement's uncertainty is."""
from ..core import Check, expect
from .. import gens as g
from .. import cones as k
from .. import oracle as o
from ..gens import np, st
import math

from matplotlib.figure import Figure
from matplotlib.backends.backend_agg import FigureCanvasAgg
from matplotlib.path import Path
import matplotlib.colors as mc
import mplstereonet  # noqa: F401
import mplstereonet.stereonet_math as M

from attitude import Orientation, ReconstructedPlane
from attitude.display import stereonet as ds, polar as dp

check = Check("C14", rule=(
    "Drawn planes (fits of clouds with drawn axis signs, and planes reconstructed from angles) drawn on stereonets, polar "
    "plots and map features with drawn styles; every vertex of the resulting patch is decoded to a physical direction and "
    "put into the cone equation of the plane's errors. Non-trivial: dipping plane."),
    assumptions=["stereonet: mplstereonet lower hemisphere, x = down, y = east, z = north; polar: theta = azimuth, r = dip in degrees",
                 "matplotlib Agg, cartopy and shapely as installed"])

_AX = {}


def axes_for(projection):
    if projection not in _AX:
        fig = Figure(figsize=(2, 2))
        FigureCanvasAgg(fig)
        _AX[projection] = fig.add_subplot(111, projection=projection)
    return _AX[projection]


def draw(projection, f):
    ax = axes_for(projection)
    for p in list(ax.patches) + list(ax.lines):
        p.remove()
    f(ax)
    return list(ax.patches), list(ax.lines)


def stereonet_dirs(v):
    """Stereonet (lon, lat) -> physical direction (east, north, up)."""
    q = k.sph(v)
    return np.column_stack([q[:, 1], q[:, 2], -q[:, 0]])


def polar_dirs(v):
    """(theta, r) -> upward normal: theta is its azimuth, r the dip."""
    th, r = v[:, 0], np.radians(v[:, 1])
    return np.column_stack([np.sin(r) * np.sin(th), np.sin(r) * np.cos(th), np.cos(r)])


clouds = g.frames(sizes=g.mostly(st.integers(5, 40), st.integers(41, 1200)), max_offset=1e3, size_range=(0.3, 30), min_gap=1.1, max_gap=8, min_ratio=0.02, max_ratio=0.6, layout=False)
styles = st.fixed_dictionaries({}, optional=dict(facecolor=st.sampled_from(["red", "#12ab34", "none"]), alpha=st.floats(0.1, 0.9),
                                                 zorder=st.integers(0, 20), linewidth=st.floats(0, 4), edgecolor=st.sampled_from(["black", "blue"])))
signs = st.lists(st.sampled_from([-1, 1]), min_size=3, max_size=3)
tight = g.logfloat(0.02, 3)
measured = st.one_of(
    # narrow errors about the axes of the projection
    st.fixed_dictionaries(dict(kind=st.just("angles"), strike=st.sampled_from([0.0, 90.0, 180.0, 270.0]), dip=st.sampled_from([0.0, 0.5, 89.5, 90.0]), rake=g.inplane,
                               errs=st.lists(tight, min_size=2, max_size=2))),
    st.fixed_dictionaries(dict(kind=st.just("fit"), cloud=clouds, signs=signs)),
    st.fixed_dictionaries(dict(kind=st.just("angles"), strike=g.strikes, dip=g.dips, rake=g.inplane,
                               errs=st.lists(st.one_of(st.floats(0.5, 60), g.logfloat(0.05, 60)), min_size=2, max_size=2))))


def make(m):
    """(object, args for uncertain_*, frame rows, d)"""
    if m["kind"] == "fit":
        fit = Orientation(np.array(g.build(m["cloud"])))
        fit = Orientation(fit.array, axes=fit.axes * np.array(m["signs"])[:, None] * fit.singular_values)
        s = np.asarray(fit.singular_values)
        return fit, None, np.array(fit.axes), 4 * s ** 3 / fit.n, float(m["cloud"]["dip"])
    args = [m["strike"], m["dip"], m["rake"]] + m["errs"]
    f = g.plane_frame(m["strike"], m["dip"], 0.0)
    r = math.radians(m["rake"])
    e1 = math.cos(r) * f[1] + math.sin(r) * f[0]
    A = np.array([np.cross(f[2], e1), e1, f[2]])
    t = [math.tan(math.radians(x) / 2) for x in m["errs"]]
    return ReconstructedPlane(*args), args, A, np.array([1 / t[1], 1 / t[0], 1.0]), float(m["dip"])


def tol(d, dual=False):
    t = 2 * d[2] / max(d[:2])
    return 1e-6 + 4e-7 / min(t, 1.0)


def check_girdle(dirs, A, d, what):
    w = k.local(dirs, A)
    res = k.plane_cone_residual(w, d)
    i = int(np.argmax(res))
    expect(res[i] <= tol(d), "{}: vertex {} (direction {}) is off the plane's error cone by {}", what, i, dirs[i].tolist(), res[i])
    return w


def check_pole(dirs, A, d, what, up=True):
    w = k.local(dirs, A)
    expect(np.all(w[:, 2] > 0) if up else np.all(w[:, 2] < 0), "{}: pole error surrounds the wrong pole", what)
    res = k.normal_cone_residual(w, d)
    i = int(np.argmax(res))
    expect(res[i] <= tol(d), "{}: vertex {} (direction {}) is off the pole's error cone by {}", what, i, dirs[i].tolist(), res[i])
    full_turn(np.arctan2(w[:, 1] * d[1], w[:, 0] * d[0]), what)


def full_turn(th, what):
    s = k.steps(th)
    big = np.abs(s) > 3.0 / len(s)   # smaller wiggles may be round-off of a very flat cone
    expect(np.all(s[big] > 0) or np.all(s[big] < 0), "{}: outline doubles back", what)
    expect(abs(abs(s.sum()) - 2 * math.pi) < 1e-2, "{}: outline covers {} rad", what, s.sum())


def check_style(patch, style, what):
    expect(patch.get_zorder() == style.get("zorder", 2), "{}: zorder {}", what, patch.get_zorder())
    a = style.get("alpha")
    if "facecolor" in style and style["facecolor"] != "none":
        expect(np.allclose(patch.get_facecolor()[:3], mc.to_rgb(style["facecolor"]), atol=1e-6), "{}: facecolor ignored", what)
    if a is not None:
        expect(abs(patch.get_alpha() - a) < 1e-9, "{}: alpha ignored", what)
    if "edgecolor" in style:
        expect(np.allclose(patch.get_edgecolor()[:3], mc.to_rgb(style["edgecolor"]), atol=1e-6), "{}: edgecolor ignored", what)
    if "linewidth" in style:
        expect(abs(patch.get_linewidth() - style["linewidth"]) < 1e-9, "{}: linewidth ignored", what)


def rings(patch):
    v, c = np.asarray(patch.get_path().vertices, float), patch.get_path().codes
    expect(c is not None and len(c) == len(v), "patch path without codes")
    starts = [i for i, x in enumerate(c) if x == Path.MOVETO]
    expect(starts and starts[0] == 0, "path does not start with a move")
    return [v[a:b] for a, b in zip(starts, starts[1:] + [len(v)])]


@check.law(st.fixed_dictionaries(dict(m=measured, style=styles, wrap=st.booleans())), quick=1600, thorough=40000)
def girdle_on_stereonet(case):
    ob, args, A, d, dip = make(case["m"])
    if args and case["wrap"]:
        pats, _ = draw("stereonet", lambda ax: ds.uncertain_plane(ax, *args, **case["style"]))
    else:
        pats, _ = draw("stereonet", lambda ax: ds.girdle_error(ax, ob, **case["style"]))
    expect(len(pats) == 1, "{} patches drawn", len(pats))
    check_style(pats[0], case["style"], "girdle")
    rs = rings(pats[0])
    expect(len(rs) == 2, "girdle has {} outlines, expected its two sheets", len(rs))
    side, orient = [], []
    for r in rs:
        w = check_girdle(stereonet_dirs(r), A, d, "girdle")
        expect(np.all(w[:, 2] > 0) or np.all(w[:, 2] < 0), "an outline jumps between the sheets")
        side.append(w[0, 2] > 0)
        th = np.arctan2(w[:, 1] / d[1], w[:, 0] / d[0])
        full_turn(th, "girdle")
        orient.append(k.steps(th).sum() > 0)
    expect(side[0] != side[1], "both outlines are the same sheet")
    expect(orient[0] != orient[1], "the two sheets run in the same direction: the area between them would not be filled")
    return [case["m"]["kind"], "upside-down" if A[2, 2] < 0 else "upright"], 0 < dip


@check.law(st.fixed_dictionaries(dict(m=measured, style=styles, wrap=st.booleans())), quick=1600, thorough=40000)
def pole_on_stereonet(case):
    ob, args, A, d, dip = make(case["m"])
    if args and case["wrap"]:
        pats, _ = draw("stereonet", lambda ax: ds.uncertain_pole(ax, *args, **case["style"]))
    else:
        pats, _ = draw("stereonet", lambda ax: ds.pole_error(ax, ob, **case["style"]))
    expect(len(pats) == 1, "{} patches drawn", len(pats))
    check_style(pats[0], case["style"], "pole")
    rs = rings(pats[0])
    expect(len(rs) == 1, "pole error has {} outlines", len(rs))
    # lower hemisphere: the downward normal
    check_pole(stereonet_dirs(rs[0]), A, d, "pole", up=False)
    # it surrounds the pole mplstereonet plots for this strike and dip
    strike, dp_ = ob.strike_dip()[:2]
    lon, lat = M.pole(strike, dp_)
    nom = stereonet_dirs(np.array([[float(lon[0]), float(lat[0])]]))[0]
    n = A[2] if A[2, 2] > 0 else -A[2]
    expect(g.axis_angle_deg(nom, n) < 1e-4, "stereonet pole {} vs normal {}", nom, n)
    return [case["m"]["kind"], "upside-down" if A[2, 2] < 0 else "upright"], 0 < dip


@check.law(st.fixed_dictionaries(dict(m=measured, style=styles, wrap=st.booleans())), quick=1600, thorough=40000)
def pole_on_polar(case):
    ob, args, A, d, dip = make(case["m"])
    if args and case["wrap"]:
        pats, _ = draw("polar", lambda ax: dp.uncertain_pole(ax, *args, **case["style"]))
    else:
        pats, _ = draw("polar", lambda ax: dp.pole_error(ax, ob, **case["style"]))
    expect(len(pats) == 1, "{} patches drawn", len(pats))
    check_style(pats[0], case["style"], "polar")
    rs = rings(pats[0])
    expect(len(rs) == 1, "pole error has {} outlines", len(rs))
    check_pole(polar_dirs(rs[0]), A, d, "polar")
    # and the nominal marker is at (dip direction, dip)
    strike, dpv = map(float, ob.strike_dip()[:2])
    _, lines = draw("polar", lambda ax: dp.pole(ax, strike, dpv, "o"))
    expect(len(lines) == 1, "{} markers", len(lines))
    x, y = lines[0].get_data()
    nom = polar_dirs(np.array([[float(np.ravel(x)[0]), float(np.ravel(y)[0])]]))[0]
    n = A[2] if A[2, 2] > 0 else -A[2]
    expect(g.axis_angle_deg(nom, n) < 1e-4, "polar marker stands for normal {}, the plane has {}", nom, n)
    return [case["m"]["kind"], "upside-down" if A[2, 2] < 0 else "upright"], 0 < dip


@check.law(st.fixed_dictionaries(dict(m=measured, p=st.one_of(st.none(), g.confidences), type=st.sampled_from([None, "noise", "sampling"]))),
           quick=1200, thorough=20000)
def map_features(case):
    """cartopy features: polygons with the same cones, in degrees."""
    ob, args, A, d, dip = make(case["m"])
    if args is None:
        from attitude.display.cartopy import cartopy_girdle, cartopy_normal
        kw = {}
        if case["p"] is not None:
            kw["confidence_level"] = case["p"]
        if case["type"] is not None:
            kw["type"] = case["type"]
        ev = np.asarray(ob.singular_values) ** 2 / (ob.n - 1)
        f = o.sampling_axes if case["type"] == "sampling" else o.noise_axes
        d = f(ev, ob.n, case["p"] or 0.95)
        gir, nor, trad = cartopy_girdle(ob, **kw), cartopy_normal(ob, **kw), True
    else:
        gir, nor, trad = ob.cartopy_girdle(), ob.cartopy_normal(), False
    if min(d) / max(d) < 1e-6:
        return ["degenerate"], False
    gg = list(gir.geometries())
    expect(len(gg) == 1 and len(gg[0].interiors) == 1, "girdle feature is not one ring")
    ext, inn = np.radians(np.array(gg[0].exterior.coords)), np.radians(np.array(gg[0].interiors[0].coords))
    sides = []
    for r in (ext, inn):
        w = check_girdle(k.plane_vectors(r, trad), A, d, "girdle feature")
        expect(np.all(w[:, 2] > 0) or np.all(w[:, 2] < 0), "an outline jumps between the sheets")
        sides.append(w[0, 2] > 0)
        full_turn(np.arctan2(w[:, 1] / d[1], w[:, 0] / d[0]), "girdle feature")
    expect(sides[0] != sides[1], "both outlines of the girdle feature are the same sheet")
    nn = list(nor.geometries())
    expect(len(nn) == 1, "pole feature has {} geometries", len(nn))
    v = k.normal_vectors(np.radians(np.array(nn[0].exterior.coords)), trad)
    check_pole(v, A, d, "pole feature")
    return [case["m"]["kind"]], 0 < dip
