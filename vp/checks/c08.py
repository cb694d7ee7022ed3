"""C08: a fit can be stored as its principal axes and re-loaded."""
from ..core import Check, expect
from .. import gens as g
from ..gens import np, st
import json
import math

from attitude import Orientation

check = Check("C08", rule=(
    "Full-rank clouds with a drawn frame; the principal axes are stored (in memory, through JSON text, through "
    "float64 bytes, with row signs flipped) and the fit re-loaded from data + stored axes, up to three times in a "
    "row. Non-trivial: all three singular values resolved (always by construction)."),
    assumptions=["the data are stored with the axes; rank-deficient fits cannot be stored this way (0/0) and are outside the property"])

clouds = g.frames(max_offset=1e5, size_range=(1e-3, 1e5), min_gap=1.0001, max_gap=1e3, min_ratio=1e-4, max_ratio=0.95)


def compare(x, y, sign_free=False):
    A, B = np.asarray(x.axes, float), np.asarray(y.axes, float)
    if sign_free:
        for i in range(3):
            expect(min(np.abs(A[i] - B[i]).max(), np.abs(A[i] + B[i]).max()) < 1e-9, "axis {} re-loaded as {}", A[i], B[i])
    else:
        expect(np.abs(A - B).max() < 1e-9, "axes {} re-loaded as {}", A.tolist(), B.tolist())
    s, t = np.asarray(x.singular_values), np.asarray(y.singular_values)
    expect(np.all(np.abs(s - t) <= 1e-9 * s), "singular values {} re-loaded as {}", s, t)
    expect(np.all(np.abs(np.asarray(x.eigenvalues) - np.asarray(y.eigenvalues)) <= 1e-8 * np.asarray(x.eigenvalues)), "eigenvalues")
    sd, td = x.strike_dip_rake(), y.strike_dip_rake()
    sind = math.sin(math.radians(sd[1]))
    expect(abs(sd[1] - td[1]) < 5e-6, "dip {} re-loaded as {}", sd[1], td[1])
    if sind > 1e-3:
        q = g.circ(sd[0], td[0])
        if sd[1] > 89.9999:
            q = min(q, abs(180 - q))
        expect(q < 1e-5, "strike {} re-loaded as {}", sd[0], td[0])
        r = abs(sd[2] - td[2])
        if sign_free or sd[1] > 89.9999:
            r = min(r, abs(180 - sd[2] - td[2]))
        expect(r < 2e-5, "rake {} re-loaded as {}", sd[2], td[2])
    hx, hy = np.asarray(x.hyperbolic_axes), np.asarray(y.hyperbolic_axes)
    expect(np.all(np.abs(hx - hy) <= 1e-7 * np.maximum(np.asarray(x.eigenvalues), hx)), "hyperbolic axes {} re-loaded as {}", hx, hy)
    if hx[1] > 0.01 * x.eigenvalues[1]:
        expect(np.abs(np.array(x.angular_errors()) - np.array(y.angular_errors())).max() < 1e-4, "angular errors")
    scale = s[0]
    for k in ("rotated", "residuals"):
        p, q = np.asarray(getattr(x, k)()), np.asarray(getattr(y, k)())
        if sign_free and k == "rotated":
            p, q = np.abs(p), np.abs(q)
        expect(np.abs(p - q).max() <= 1e-8 * scale, "{}() differs after re-loading", k)
    expect(np.array_equal(np.asarray(x.center), np.asarray(y.center)), "center")
    expect(np.array_equal(np.asarray(x.centered_array), np.asarray(y.centered_array)), "centered array")
    expect(abs(x.explained_variance - y.explained_variance) < 1e-9, "explained variance")
    cx, cy = np.asarray(x.covariance_matrix), np.asarray(y.covariance_matrix)
    expect(np.abs(cx - cy).max() <= 1e-8 * np.abs(cx).max(), "covariance matrix")
    # lazily computed part of the decomposition
    U = np.asarray(y.U, float)
    rec = U.dot(np.asarray(y.sigma, float)).dot(B)
    expect(np.abs(rec - np.asarray(y.centered_array, float)).max() <= 1e-8 * scale, "U sigma V does not rebuild the data after re-loading")
    UX = np.asarray(x.U, float)
    if sign_free:
        U, UX = np.abs(U), np.abs(UX)
    expect(np.abs(U - UX).max() < 1e-9 * s[0] / s[2] + 1e-9, "U differs after re-loading")


@check.law(st.fixed_dictionaries(dict(cloud=clouds, via=st.sampled_from(["memory", "json", "bytes", "fortran"]), times=st.integers(1, 3))),
           quick=2500, thorough=80000)
def reload(case):
    a = np.array(g.build(case["cloud"]))
    fit = Orientation(a)
    cur = fit
    for _ in range(case["times"]):
        P = cur.principal_axes
        if case["via"] == "json":
            P = np.array(json.loads(json.dumps(P.tolist())))
        elif case["via"] == "bytes":
            P = np.frombuffer(np.ascontiguousarray(P).tobytes(), dtype=float).reshape(3, 3)
        elif case["via"] == "fortran":
            P = np.asfortranarray(P)
        keep = np.array(P, copy=True)
        cur = Orientation(a, axes=P)
        expect(np.array_equal(P, keep), "stored axes were modified")
        compare(fit, cur)
        expect(cur.hash == fit.hash, "the identifier {} is {} after re-loading", fit.hash, cur.hash)
    return g.labels_of(case["cloud"]) + [case["via"]], True


@check.law(st.fixed_dictionaries(dict(cloud=clouds, signs=st.lists(st.sampled_from([-1, 1]), min_size=3, max_size=3))),
           quick=1500, thorough=40000)
def reload_signs(case):
    """Stored axes are as good with any axis reversed."""
    a = np.array(g.build(case["cloud"]))
    fit = Orientation(a)
    P = np.asarray(fit.principal_axes) * np.array(case["signs"])[:, None]
    compare(fit, Orientation(a, axes=P), sign_free=True)
    return g.labels_of(case["cloud"]), True


@check.law(st.fixed_dictionaries(dict(cloud=clouds, signs=st.lists(st.sampled_from([-1, 1]), min_size=3, max_size=3), keep=st.floats(0.05, 1), few=st.booleans())),
           quick=1000, thorough=30000)
def stored_axes_decide(case):
    """The stored axes decide the orientation, also if only part of the points was stored along with them."""
    a = np.array(g.build(case["cloud"]))
    fit = Orientation(a)
    b = a[:max(4, int(len(a) * case["keep"]))] if not case["few"] else a[::-2]
    P = np.asarray(fit.principal_axes) * np.array(case["signs"])[:, None]
    f = Orientation(b, axes=P)
    want = np.asarray(fit.axes, float) * np.array(case["signs"])[:, None]
    expect(np.abs(np.asarray(f.axes, float) - want).max() < 1e-9, "axes {} re-loaded as {}", want.tolist(), np.asarray(f.axes).tolist())
    s, t = np.asarray(fit.singular_values), np.asarray(f.singular_values)
    expect(np.all(np.abs(s - t) <= 1e-9 * s), "singular values {} re-loaded as {}", s, t)
    x, y = fit.strike_dip(), f.strike_dip()
    expect(abs(x[1] - y[1]) < 5e-6, "dip {} re-loaded as {}", x[1], y[1])
    if 0.1 < x[1] < 89.99:
        expect(g.circ(x[0], y[0]) < 1e-5, "strike {} re-loaded as {}", x[0], y[0])
    expect(np.array_equal(np.asarray(f.array), b) and f.n == len(b), "{} points, stored with {}", f.n, len(b))
    expect(np.abs(np.asarray(f.center) - b.mean(axis=0)).max() <= 1e-12 * np.abs(b).max() * len(b), "center of the stored points")
    return g.labels_of(case["cloud"]), len(b) < len(a)
