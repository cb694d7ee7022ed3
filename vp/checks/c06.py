"""C06: looking at a fit never changes it (histories of queries, plots, exports)."""
from ..core import Check, expect
from .. import gens as g
from ..gens import np, st
import copy
import json
import math
import pickle

import matplotlib.pyplot as plt
import mplstereonet  # noqa: F401  (registers the projection)

from attitude import Orientation, ReconstructedPlane, create_groups
from attitude import display
from attitude.display import stereonet as dstereo, polar as dpolar
from attitude.display import nbextension, cartopy as dcartopy
from attitude.display.hyperbola import hyperbolic_errors
from attitude.display.pca_aligned import plot_aligned
from attitude.display.error_comparison import error_comparison
from attitude import stereonet
from attitude.geom import fit_angle, fit_similarity
from attitude.error import axes as eax, pca_to_mapping

check = Check("C06", rule=(
    "A fit (plain, re-loaded from stored axes with drawn signs, grouped, or reconstructed from angles) and a "
    "drawn history of 3-12 operations over every read-only query, export, plot and comparison, some of which "
    "also scribble over the returned value. After every step the whole observable state is compared "
    "with the state before the history, and a repeated query with its first answer (1e-7 relative; uids exactly). Non-trivial: the "
    "history has at least three different operations."),
    assumptions=["matplotlib (Agg) figures are the plotting targets; IPython display() is captured"])

_AX = {}


def axes_for(projection):
    """One cached Axes per projection; artists are removed after every plot."""
    if projection not in _AX:
        from matplotlib.figure import Figure
        from matplotlib.backends.backend_agg import FigureCanvasAgg
        fig = Figure(figsize=(2, 2))
        FigureCanvasAgg(fig)
        _AX[projection] = fig.add_subplot(111, projection=projection)
    return _AX[projection]


def cleared(projection, f):
    ax = axes_for(projection)
    try:
        f(ax)
        out = []
        for p in ax.patches:
            v = np.array(p.get_path().vertices)
            if projection == "polar":   # (theta, r): compare positions, not angles
                out.append(np.column_stack([v[:, 1] * np.cos(v[:, 0]), v[:, 1] * np.sin(v[:, 0])]))
            else:                       # (lon, lat)
                out.append(np.column_stack([np.cos(v[:, 1]) * np.cos(v[:, 0]), np.cos(v[:, 1]) * np.sin(v[:, 0]), np.sin(v[:, 1])]))
    finally:
        for p in list(ax.patches) + list(ax.lines):
            p.remove()
    return out


def scribble(x):
    """Overwrite a returned value in place, as a careless caller might."""
    if isinstance(x, np.ndarray):
        if x.flags.writeable:
            x[...] = -12345
    elif isinstance(x, list):
        for i in range(len(x)):
            if isinstance(x[i], (list, np.ndarray)):
                scribble(x[i])
            else:
                x[i] = None
    elif isinstance(x, dict):
        for k in list(x):
            scribble(x[k])
            x[k] = None


def feature(x):
    """The outlines of a map feature as directions."""
    out = []
    for p in x.geometries():
        for r in [p.exterior] + list(p.interiors):
            v = np.radians(np.array(r.coords))
            out.append(np.column_stack([np.cos(v[:, 1]) * np.cos(v[:, 0]), np.cos(v[:, 1]) * np.sin(v[:, 0]), np.sin(v[:, 1])]))
    return out


def _interactive(fit, other):
    shown = []
    old = nbextension.display
    nbextension.display = lambda *a, **k: shown.extend(a)
    try:
        nbextension.plot_interactive([fit, other])
    finally:
        nbextension.display = old
    return len(shown)


def _group(fit, other):
    r = create_groups([fit, other], [fit.hash, other.hash])
    return [o.hash for o in r[:-1]] + [np.array(r[-1].singular_values)]


def _group_same(fit, other):
    r = create_groups([other, fit], [fit.hash], same_plane=True)
    return [o.hash for o in r[:-1]] + [np.array(r[-1].singular_values)]


Q = dict(
    strike_dip=lambda f, o: f.strike_dip(),
    dip_direction=lambda f, o: f.dip_direction(),
    strike_dip_rake=lambda f, o: f.strike_dip_rake(),
    angular_errors=lambda f, o: f.angular_errors(),
    hyperbolic_axes=lambda f, o: f.hyperbolic_axes,
    hash=lambda f, o: f.hash,
    to_mapping=lambda f, o: f.to_mapping(),
    to_mapping_kw=lambda f, o: f.to_mapping(name="x", color="red"),
    plane_errors=lambda f, o: np.array(stereonet.plane_errors(f.axes, f.covariance_matrix, sheet='upper', n=30)),
    plane_errors_lower=lambda f, o: np.array(stereonet.plane_errors(f.axes, f.covariance_matrix, sheet='lower', n=30, traditional_layout=False)),
    normal_errors=lambda f, o: np.array(stereonet.normal_errors(f.axes, f.covariance_matrix, n=30)),
    normal_errors_up=lambda f, o: np.array(stereonet.normal_errors(f.axes, f.covariance_matrix, n=30, traditional_layout=False)),
    iter_plane=lambda f, o: np.array(stereonet.iterative_plane_errors(f.axes, f.covariance_matrix, n=8)),
    iter_normal=lambda f, o: np.array(stereonet.iterative_normal_errors(f.axes, f.covariance_matrix, n=8)),
    error_coords=lambda f, o: stereonet.error_coords(f.axes, f.covariance_matrix, n=20),
    fit_angle=lambda f, o: fit_angle(f, o),
    fit_angle_r=lambda f, o: fit_angle(o, f),
    girdle=lambda f, o: cleared("stereonet", lambda ax: dstereo.girdle_error(ax, f)),
    pole=lambda f, o: cleared("stereonet", lambda ax: dstereo.pole_error(ax, f)),
    polar=lambda f, o: cleared("polar", lambda ax: dpolar.pole_error(ax, f)),
    interactive=lambda f, o: _interactive(f, o),
    copying=lambda f, o: copy.copy(f).hash,
    deep_copying=lambda f, o: copy.deepcopy(f).hash,
    map_girdle=lambda f, o: feature(f.cartopy_girdle() if isinstance(f, ReconstructedPlane) else dcartopy.cartopy_girdle(f)),
    map_normal=lambda f, o: feature(f.cartopy_normal() if isinstance(f, ReconstructedPlane) else dcartopy.cartopy_normal(f)),
    section=lambda f, o: [np.array(x) for x in hyperbolic_errors(np.array(f.hyperbolic_axes), np.linspace(-5, 5, 7))],
    section_world=lambda f, o: [np.array(x) for x in hyperbolic_errors(f.hyperbolic_axes, np.linspace(-5, 5, 7), transformation=f.axes, axes=f.axes[1:])],
    json_text=lambda f, o: len(json.dumps(f.to_mapping())) > 0,
)
PCA_ONLY = dict(
    rake=lambda f, o: f.rake(),
    rotated=lambda f, o: f.rotated(),
    residuals=lambda f, o: f.residuals(),
    eigenvalues=lambda f, o: f.eigenvalues,
    explained_variance=lambda f, o: f.explained_variance,
    covariance=lambda f, o: f.covariance_matrix,
    principal_axes=lambda f, o: f.principal_axes,
    angular_error=lambda f, o: f.angular_error(3.0),
    as_conic=lambda f, o: f.as_conic(),
    as_conic_level=lambda f, o: f.as_conic(level=2),
    as_hyperbola=lambda f, o: f.as_hyperbola(),
    as_hyperbola_rot=lambda f, o: f.as_hyperbola(rotated=True),
    method_plane_errors=lambda f, o: np.array(f.plane_errors(n=20)),
    method_error_coords=lambda f, o: f.error_coords(n=20, levels=[1, 2]),
    noise_axes=lambda f, o: eax.noise_axes(f),
    sampling_axes=lambda f, o: eax.sampling_axes(f, confidence_level=0.68),
    francq=lambda f, o: eax.francq_axes(f),
    no_variance=lambda f, o: eax.noise_axes(f, variance_on_all_axes=False),
    babamoradi=lambda f, o: eax.babamoradi_axes(f),
    regression=lambda f, o: eax.regression_axes(f),
    pca_mapping=lambda f, o: pca_to_mapping(f),
    similarity=lambda f, o: fit_similarity(f, o),
    similarity_r=lambda f, o: fit_similarity(o, f),
    gradient=lambda f, o: f.gradient(),
    representation=lambda f, o: repr(f),
    U=lambda f, o: np.array(f.U),
    reload=lambda f, o: np.array(Orientation(f.array, axes=f.principal_axes).axes),
)
PLAIN_ONLY = dict(group=_group, group_same=_group_same)
PLOTS = dict(
    plot_aligned=lambda f, o: len(plot_aligned(f).axes),
    plot_aligned_cmap=lambda f, o: len(plot_aligned(f, sparse=False, colormap='viridis').axes),
    error_comparison=lambda f, o: len(error_comparison(f).axes),
)
# results the caller owns: scribbling over them must be harmless
OWNED = {"rotated", "residuals", "eigenvalues", "hyperbolic_axes", "to_mapping", "to_mapping_kw", "plane_errors",
         "normal_errors", "error_coords", "noise_axes", "sampling_axes", "covariance", "principal_axes",
         "method_error_coords", "pca_mapping", "method_plane_errors", "francq", "as_hyperbola", "as_hyperbola_rot", "as_conic", "as_conic_level", "babamoradi", "regression",
         "no_variance", "section", "section_world"}

ALL = sorted(list(Q) + list(PCA_ONLY) + list(PLAIN_ONLY))
ops = st.lists(st.tuples(st.sampled_from(ALL), st.booleans()), min_size=3, max_size=12).map(lambda l: [list(x) for x in l])
clouds = g.frames(sizes=g.sizes_small, max_offset=1e3, size_range=(1, 1e3), min_gap=1.1, max_gap=20, min_ratio=0.01, max_ratio=0.3)
kinds = st.sampled_from(["plain", "plain", "loaded", "loaded", "aligned", "grouped", "reconstructed"])


def state(f):
    """Everything observable about a fit, in comparable form."""
    keys = {}
    for k in ("axes", "singular_values", "sigma", "normal", "strike", "dip_dr", "mean", "center", "centered_array",
              "array", "weights", "hyperbolic_axes", "covariance_matrix", "eigenvalues", "coefficients", "azimuth", "slope", "explained_variance"):
        try:
            v = getattr(f, k)
        except AttributeError:
            continue
        keys[k] = None if v is None else np.array(v, copy=True)
    keys["sdr"] = tuple(map(float, f.strike_dip_rake()))
    keys["err"] = tuple(map(float, f.angular_errors()))
    keys["hash"] = f.hash
    keys["member_of"] = id(getattr(f, "member_of", None))
    keys["disabled"] = f.disabled
    keys["n"] = getattr(f, "n", None)
    keys["members"] = [id(m) for m in getattr(f, "members", ())]
    return keys


RTOL = 1e-7  # repeated floating-point computations agree to rounding, not bit for bit


def same(a, b):
    """Equality up to rounding for numbers, exact for everything else."""
    if a is None or b is None:
        return a is b
    if isinstance(a, (float, np.floating, np.ndarray)) or isinstance(b, (float, np.floating, np.ndarray)):
        x, y = np.asarray(a), np.asarray(b)
        if x.shape != y.shape:
            return False
        if x.dtype.kind not in "fiub" or y.dtype.kind not in "fiub":
            return bool(np.all(x == y))
        x, y = x.astype(float), y.astype(float)
        if not np.array_equal(np.isnan(x), np.isnan(y)):
            return False
        x, y = np.nan_to_num(x), np.nan_to_num(y)
        return bool(np.all(np.abs(x - y) <= RTOL * max(np.abs(x).max(initial=0), np.abs(y).max(initial=0))))
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def make(case):
    a = np.array(g.build(case["a"]))
    b = np.array(g.build(case["b"]))
    other = Orientation(b)
    kind = case["kind"]
    signs = np.array(case["signs"])[:, None]
    if kind == "plain":
        fit = Orientation(a)
    elif kind == "loaded":
        ref = Orientation(a)
        stored = ref.axes * signs * ref.singular_values
        keep = stored.copy()
        fit = Orientation(a, axes=stored)
        fit.angular_errors()
        expect(np.array_equal(stored, keep), "re-loading a fit changed the caller's stored axes")
    elif kind == "aligned":
        # data (nearly) along the coordinate axes, stored axes exactly so
        s = case["a"]["s"]
        a = np.vstack([np.diag(s), -np.diag(s)])
        fit = Orientation(a, axes=np.diag(np.array(s) * math.sqrt(2)) * signs)
    elif kind == "grouped":
        base = [Orientation(a), Orientation(b + 1.0)]
        fit = create_groups(base, [o.hash for o in base])[-1]
    else:
        fit = ReconstructedPlane(case["a"]["strike"], max(case["a"]["dip"], 1.0), case["a"]["k"] % 90, 2.0, 7.0)
    return fit, other, a


@check.law(st.fixed_dictionaries(dict(
    a=clouds, b=clouds, kind=kinds, ops=ops,
    signs=st.lists(st.sampled_from([-1, 1]), min_size=3, max_size=3))), quick=2400, thorough=80000)
def history(case):
    fit, other, a = make(case)
    kind = case["kind"]
    avail = dict(Q)
    if kind != "reconstructed":
        avail.update(PCA_ONLY)
    if kind in ("plain", "loaded", "aligned"):
        avail.update(PLAIN_ONLY)
    raw = a.copy()
    before, obefore = state(fit), state(other)
    first = {}
    done = []
    for name, spoil in case["ops"]:
        if name not in avail:
            continue
        got = avail[name](fit, other)
        done.append(name)
        if name in first:
            expect(same(first[name], got), "query {!r} answers differently the second time after {}: {} then {}",
                   name, done, first[name], got)
        else:
            first[name] = copy.deepcopy(got)
        if spoil and name in OWNED:
            # fresh result each time: overwriting it is the caller's business
            if not (kind == "reconstructed" and name in ("hyperbolic_axes",)):
                scribble(got)
        for tag, f, ref in (("fit", fit, before), ("other fit", other, obefore)):
            now = state(f)
            for k in ref:
                expect(same(ref[k], now.get(k)), "{} of the {} changed after {}: {} -> {}", k, tag, done, ref[k], now.get(k))
    expect(np.array_equal(a, raw), "the input coordinates changed")
    return [kind] + ["op:" + d for d in set(done)] + (["upside-down"] if np.asarray(fit.axes)[2][2] < 0 else []), len(set(done)) >= 3


@check.law(st.fixed_dictionaries(dict(a=clouds, b=clouds, kind=st.sampled_from(["plain", "loaded", "grouped"]),
                                      plots=st.lists(st.sampled_from(sorted(PLOTS)), min_size=1, max_size=2),
                                      signs=st.lists(st.sampled_from([-1, 1]), min_size=3, max_size=3))),
           quick=80, thorough=1500)
def figure_history(case):
    fit, other, a = make(case)
    before = state(fit)
    for p in case["plots"]:
        PLOTS[p](fit, other)
        now = state(fit)
        for k in before:
            expect(same(before[k], now.get(k)), "{} changed by {}", k, p)
    return [case["kind"]] + case["plots"], True
