"""C05: the other error models and their plumbing."""
from ..core import Check, expect
from .. import gens as g, oracle as o
from ..gens import np, st
import math
from scipy.stats import f as fdist
from .c04 import reference, close_axes

from attitude import Orientation
from attitude.error import to_normal_errors, from_normal_errors, pca_to_mapping, error_bounds
from attitude.error import axes as ax

check = Check("C05", rule=(
    "Clouds with drawn singular values and point counts, drawn confidence levels, degrees of freedom and "
    "model options; every error model is compared with its closed form. Non-trivial: singular values "
    "resolved beyond round-off."),
    assumptions=["models as published in the code's docstrings: sampling (Jolliffe/Faber), Francq, Babamoradi, regression, chi-squared option"])

sizes = st.one_of(g.sizes, g.sizes, g.sizes, g.sizes, st.integers(301, 4000))
clouds = g.frames(sizes=sizes, max_offset=1e3, size_range=(1e-2, 1e4), min_gap=1.001, max_gap=300, min_ratio=1e-3, max_ratio=0.95)


def f_cdf(x, d1, d2):
    from scipy.special import betainc
    return betainc(d1 / 2.0, d2 / 2.0, d1 * x / (d1 * x + d2))


@check.law(st.fixed_dictionaries(dict(cloud=clouds, p=g.confidences, allaxes=st.booleans(), chisq=st.booleans(), dof=st.integers(1, 4))),
           quick=3000, thorough=80000)
def closed_forms(case):
    c, p = case["cloud"], case["p"]
    n = c["n"]
    fit = Orientation(g.build(c))
    ev, rel = reference(c)
    close_axes(ax.sampling_axes(fit, confidence_level=p), o.sampling_axes(ev, n, p), ev, rel, "sampling")
    close_axes(ax.sampling_axes(fit), o.sampling_axes(ev, n, .95), ev, rel, "sampling (default)")
    close_axes(ax.statistical_axes(fit, method='sampling', confidence_level=p), o.sampling_axes(ev, n, p), ev, rel, "statistical/sampling")
    close_axes(ax.statistical_axes(fit, confidence_level=p), o.noise_axes(ev, n, p), ev, rel, "statistical/default")
    close_axes(ax.francq_axes(fit, confidence_level=p), o.francq_axes(ev, n, p), ev, rel, "francq")
    close_axes(ax.francq_axes(fit), o.francq_axes(ev, n), ev, rel, "francq (default)")
    b = np.asarray(ax.babamoradi_axes(fit, confidence_level=p), float)
    w = o.babamoradi_axes(ev, n, p)
    expect(np.all(np.abs(b - w) <= 4 * rel * w), "babamoradi {} expected {}", b, w)
    for f in (ax.babamoradi_axes, ax.regression_axes, ax.francq_axes, ax.noise_axes, ax.sampling_axes):
        expect(np.array_equal(f(fit), f(fit, confidence_level=0.95)), "{} is not at 95% by default", f.__name__)
    expect(np.allclose(ax.mean_estimator(ev, n), ev / (n - 1), rtol=1e-12) and np.allclose(ax.mean_estimator(ev, n, ddof=0), ev / n, rtol=1e-12),
           "mean_estimator")
    r = np.asarray(ax.regression_axes(fit, confidence_level=p), float)
    w = o.regression_axes(np.array(c["s"]), n, p)
    if rel[2] < 1e-6:
        expect(np.all(np.abs(r - w) <= (1e-5 + 40 * rel[2]) * w), "regression {} expected {}", r, w)
    expect(np.all(np.abs(np.asarray(ax.eigenvalue_axes(fit)) - ev) <= 2 * rel * ev), "eigenvalue axes")
    expect(np.all(np.abs(np.asarray(ax.variance_axes(fit)) - ev) <= 2 * rel * ev), "variance axes")
    # chi-squared scaling option
    if case["chisq"]:
        z = o.chi2_2_quantile(p)
        close_axes(ax.noise_axes(fit, confidence_level=p, chisq=True), o.noise_axes(ev, n, z=z), ev, rel, "noise chisq")
        close_axes(ax.sampling_axes(fit, confidence_level=p, chisq=True), o.sampling_axes(ev, n, z=z), ev, rel, "sampling chisq")
    # other degrees of freedom
    k = case["dof"]
    if n > k:
        z = float(fdist.ppf(p, k, n - k))
        expect(abs(f_cdf(z, k, n - k) - p) < 1e-6, "reference quantile")
        close_axes(ax.sampling_axes(fit, confidence_level=p, dof=k), o.sampling_axes(ev, n, z=z), ev, rel, "sampling dof=%d" % k)
        close_axes(ax.noise_axes(fit, confidence_level=p, dof=k), o.noise_axes(ev, n, z=z), ev, rel, "noise dof=%d" % k)
        if case["chisq"]:
            from scipy.stats import chi2
            z = float(chi2.ppf(p, k))
            close_axes(ax.noise_axes(fit, confidence_level=p, dof=k, chisq=True), o.noise_axes(ev, n, z=z), ev, rel, "noise chisq dof=%d" % k)
            close_axes(ax.sampling_axes(fit, confidence_level=p, dof=k, chisq=True), o.sampling_axes(ev, n, z=z), ev, rel, "sampling chisq dof=%d" % k)
    if not case["allaxes"]:
        h = ax.sampling_axes(fit, confidence_level=p, variance_on_all_axes=False)
        full = o.sampling_axes(ev, n, p)
        full[2] = full[2] - ev[2] + ev[2] / (n - 1)
        close_axes(h, full, ev, rel, "sampling without variance on the error axis")
        h = ax.francq_axes(fit, confidence_level=p, variance_on_all_axes=False)
        full = o.francq_axes(ev, n, p)
        full[2] = full[2] - ev[2] + ev[2] / (n - 1)
        close_axes(h, full, ev, rel, "francq without variance on the error axis")
        h = ax.noise_axes(fit, confidence_level=p, variance_on_all_axes=False)
        full = o.noise_axes(ev, n, p)
        full[2] = full[2] - ev[2] + ev[2] / (n - 1)
        close_axes(h, full, ev, rel, "noise without variance on the error axis")
    # covariances
    cs = np.asarray(ax.sampling_covariance(fit), float)
    expect(np.all(np.abs(cs - 2 * ev ** 2 / (n - 1)) <= 4 * rel * cs), "sampling covariance {}", cs)
    cn = np.asarray(ax.noise_covariance(fit), float)
    w = 4 * ev * ev[2] / (n - 2)
    expect(np.all(np.abs(cn - w) <= 4 * (rel + rel[2]) * w), "noise covariance {} expected {}", cn, w)
    return ["n<=8" if n <= 8 else "n>8"], bool(rel[2] < 1e-4)


@check.law(st.fixed_dictionaries(dict(cloud=clouds, p=g.confidences, type=st.sampled_from(["noise", "sampling", None]))),
           quick=1000, thorough=20000)
def dispatch(case):
    """Model selection: by keyword, by the fit's method, and in exported mappings."""
    c = case["cloud"]
    fit = Orientation(g.build(c))
    ev, rel = reference(c)
    n, p = c["n"], case["p"]
    kw = {} if case["type"] is None else dict(type=case["type"])
    got = ax.hyperbolic_axes(fit, confidence_level=p, **kw)
    f = o.sampling_axes if case["type"] == "sampling" else o.noise_axes
    close_axes(got, f(ev, n, p), ev, rel, "hyperbolic_axes(type=%s)" % case["type"])
    m = pca_to_mapping(fit, name="a", tag=3)
    expect(set(m) == {"axes", "covariance", "name", "tag"} and m["name"] == "a" and m["tag"] == 3, "mapping {}", list(m))
    expect(np.array_equal(m["axes"], np.asarray(fit.axes)), "mapping axes")
    close_axes(m["covariance"], o.sampling_axes(ev, n), ev, rel, "pca_to_mapping")
    m = pca_to_mapping(fit, method=ax.noise_axes)
    close_axes(m["covariance"], o.noise_axes(ev, n), ev, rel, "pca_to_mapping(noise)")
    # Switching the model of a fit switches everything derived from it
    for model, ref in ((ax.sampling_axes, o.sampling_axes), (ax.francq_axes, o.francq_axes), (ax.noise_axes, o.noise_axes)):
        fit.method = model
        h = np.asarray(fit.hyperbolic_axes, float)
        close_axes(h, ref(ev, n), ev, rel, "fit.method")
        w = o.angular(h)
        expect(np.allclose(fit.angular_errors(), w, rtol=0, atol=1e-9), "angular errors {} vs {}", fit.angular_errors(), w)
        mp = fit.to_mapping()
        expect(np.allclose(mp["hyperbolic_axes"], h, rtol=1e-12, atol=0) and
               np.allclose([mp["min_angular_error"], mp["max_angular_error"]], w, rtol=0, atol=1e-9),
               "exported errors do not follow the fit's method")
    for model in (ax.babamoradi_axes, ax.regression_axes, ax.eigenvalue_axes):
        fit.method = model
        h = np.asarray(model(fit), float)
        expect(np.array_equal(np.asarray(fit.hyperbolic_axes, float), h), "fit.method = {} is not used", model.__name__)
        expect(np.allclose(fit.angular_errors(), o.angular(h), rtol=0, atol=1e-9), "angular errors {} vs {}", fit.angular_errors(), o.angular(h))
    return [str(case["type"])], True


@check.law(st.fixed_dictionaries(dict(p=st.floats(0.01, 0.999), n=st.one_of(st.integers(4, 30), st.integers(31, 5000)),
                                      dof=st.integers(1, 3))), quick=1500, thorough=30000)
def fisher(case):
    """The Fisher statistic is the quantile of F(dof, n - dof)."""
    n, dof, p = case["n"], case["dof"], case["p"]
    x = float(ax.fisher_statistic(n, p, dof=dof))
    expect(abs(f_cdf(x, dof, n - dof) - p) < 1e-6, "F quantile {} has probability {} not {}", x, f_cdf(x, dof, n - dof), p)
    if dof == 2:
        expect(abs(x - o.f2_quantile(p, n - 2)) <= 1e-6 * (1 + x), "F quantile {}", x)
        expect(float(ax.fisher_statistic(n, p)) == x, "default degrees of freedom are not 2")
    return ["dof%d" % dof], True


vec3 = st.lists(g.logfloat(1e-4, 1e4), min_size=3, max_size=3)


@check.law(st.fixed_dictionaries(dict(h=vec3, l=g.logfloat(1e-4, 1e4), nom=st.lists(st.floats(-90, 90), min_size=1, max_size=4),
                                      w=st.floats(0, 40))), quick=2000, thorough=40000)
def conversions(case):
    """Plane errors <-> normal errors invert each other; angular errors of axes."""
    h = np.array(case["h"])
    v = np.asarray(to_normal_errors(h.copy()), float)
    expect(np.allclose(v, h[2] ** 2 / h, rtol=1e-12), "normal errors {} of {}", v, h)
    expect(np.allclose(from_normal_errors(v.copy()), h, rtol=1e-10), "normal -> plane errors is not the inverse")
    expect(np.allclose(to_normal_errors(np.asarray(from_normal_errors(h.copy()))), h, rtol=1e-10), "plane -> normal errors is not the inverse")
    a = ax.angular_errors(h.copy())
    expect(np.allclose(a, o.angular(h, degrees=False), rtol=0, atol=1e-12), "angular_errors({}) = {}", h, a)
    e = float(ax.axis_angular_error(h.copy(), case["l"]))
    expect(abs(e - math.atan2(h[2], case["l"])) < 1e-12, "axis_angular_error")
    nom = np.array(case["nom"])
    lo, hi = error_bounds((nom, case["w"]))
    expect(np.allclose(lo, nom - case["w"]) and np.allclose(hi, nom + case["w"]), "error_bounds")
    return [], True
