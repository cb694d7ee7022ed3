"""C11: a plane reconstructed from angles is the plane those angles describe."""
from ..core import Check, expect
from .. import gens as g
from ..gens import np, st
import math

from attitude import Orientation, ReconstructedPlane


def known():
    """The recorded finding: error directions of a fit are not recovered."""
    c = dict(kind="frame", n=20, strike=30.0, dip=40.0, k=20.0, s=[40.0, 12.0, 1.0], offset=[0.0, 0.0, 0.0],
             seed=1, style=0, dtype="f8", layout="C")
    fit = Orientation(g.build(c))
    rec = ReconstructedPlane(*fit.strike_dip_rake(), *fit.angular_errors())
    lo = int(np.argmax(np.asarray(rec.hyperbolic_axes)[:2]))
    return ["error directions of a fit"] if g.axis_angle_deg(rec.axes[lo], fit.axes[0]) > 1 else []


check = Check("C11", rule=(
    "Drawn strike (incl. negative and beyond 360), dip, rake and angular errors; axes, error surface and reported values compared "
    "with the plane built directly from the angles; and planes reconstructed from the numbers reported for drawn fits. "
    "Non-trivial: dip and errors non-zero."),
    assumptions=["rake is measured from the strike direction towards the dip direction (stereonet convention)",
                 "error directions of planes reconstructed from fits are a recorded finding, not asserted"], known=known)

errs = st.one_of(st.floats(0.05, 5), st.floats(5, 90), st.floats(90, 175))


def rebuilt(p, strike, dip, rake, mn, mx, ne=1.0):
    f = g.plane_frame(strike, dip, 0.0)
    down, along, n = f
    A = np.asarray(p.axes, float)
    expect(A.shape == (3, 3) and np.abs(A.dot(A.T) - np.eye(3)).max() < 2e-7, "axes are not orthonormal: {}", A.tolist())
    expect(g.vec_angle_deg(np.asarray(p.normal, float), n) < 1e-5 or (dip > 90 - 1e-6 and g.axis_angle_deg(p.normal, n) < 1e-5),
           "normal {} of strike {} dip {} (expected {})", p.normal, strike, dip, n)
    expect(g.axis_angle_deg(A[2], n) < 1e-5, "third axis {} is not the normal {}", A[2], n)
    expect(A[2][2] >= -1e-7, "axes point down: {}", A[2])
    h = np.asarray(p.hyperbolic_axes, float)
    expect(h.shape == (3,) and np.all(h > 0) and np.all(np.isfinite(h)), "hyperbolic axes {}", h)
    expect(abs(h[2] - ne) < 1e-12 * ne, "error axis length {} expected {}", h[2], ne)
    C = np.asarray(p.covariance_matrix, float)
    expect(np.array_equal(C, np.diag(h)), "covariance matrix is not that of the hyperbolic axes")
    # The half-angles of uncertainty, as an error surface over in-plane directions:
    # direction of the rake carries the first error, the perpendicular one the second.
    r = math.radians(rake)
    e1 = math.cos(r) * along + math.sin(r) * down
    e2 = np.cross(n, e1)
    S = A.T.dot(np.diag([(h[2] / h[0]) ** 2, (h[2] / h[1]) ** 2, 0.0])).dot(A)
    t1, t2 = math.tan(math.radians(mn) / 2) ** 2, math.tan(math.radians(mx) / 2) ** 2
    tol = 1e-5 * (t1 + t2)  # mplstereonet resolves directions to ~1e-8
    expect(abs(e1.dot(S).dot(e1) - t1) <= tol and abs(e2.dot(S).dot(e2) - t2) <= tol and abs(e1.dot(S).dot(e2)) <= tol,
           "errors {}, {} at rake {}: along rake {}, across {}, cross term {}", mn, mx, rake,
           2 * math.degrees(math.atan(math.sqrt(max(0, e1.dot(S).dot(e1))))), 2 * math.degrees(math.atan(math.sqrt(max(0, e2.dot(S).dot(e2))))), e1.dot(S).dot(e2))


@check.law(st.fixed_dictionaries(dict(strike=st.one_of(g.strikes, st.floats(-360, 720)), dip=g.dips,
                                      rake=st.one_of(g.inplane, st.floats(-180, 360)), mn=errs, mx=errs, delta=g.logfloat(1e-6, 0.5),
                                      ne=st.one_of(st.none(), g.logfloat(1e-3, 1e3)))), quick=6000, thorough=150000)
def angles_in(case):
    s, d, r, mn, mx = (case[k] for k in ("strike", "dip", "rake", "mn", "mx"))
    kw = {} if case["ne"] is None else dict(normal_error=case["ne"])
    p = ReconstructedPlane(s, d, r, mn, mx, **kw)
    rebuilt(p, s, d, r, mn, mx, case["ne"] or 1.0)
    expect(tuple(map(float, p.strike_dip())) == (s, d), "strike_dip {}", p.strike_dip())
    expect(tuple(map(float, p.strike_dip_rake())) == (s, d, r), "strike_dip_rake {}", p.strike_dip_rake())
    expect(tuple(map(float, p.angular_errors())) == (mn, mx), "angular_errors {}", p.angular_errors())
    dd = p.dip_direction()
    expect(g.circ(dd[0], s + 90) < 1e-9 and dd[1] == d, "dip direction {}", dd)
    # the uid identifies the plane and its errors
    q = ReconstructedPlane(s, d, r, mn, mx, **kw)
    expect(np.allclose(p.axes, q.axes, atol=1e-12), "same angles, different planes")
    if np.array_equal(p.axes, q.axes):
        expect(p.hash == q.hash, "same plane, different uids")
    k = 1 - case["delta"]
    for other in ((mn, mx * k), (mn * k, mx), (mn * k, mx * k)) + (((mx, mn),) if abs(mn - mx) > 1e-9 * mx else ()):
        q = ReconstructedPlane(s, d, r, *other, **kw)
        expect(p.hash != q.hash, "planes with errors {} and {} share uid {}", (mn, mx), other, p.hash)
    for q in (ReconstructedPlane(s, d * k, r, mn, mx, **kw), ReconstructedPlane(s + 360 * case["delta"], d, r, mn, mx, **kw),
              ReconstructedPlane(s, d, r + 180 * case["delta"], mn, mx, **kw)):
        if np.abs(p.axes - q.axes).max() > 1e-9:
            expect(p.hash != q.hash, "different planes share uid {}", p.hash)
    return ["level" if d == 0 else "vertical" if d == 90 else "dipping"], d > 0


clouds = g.frames(sizes=g.sizes_small, max_offset=1e3, size_range=(1, 1e3), min_gap=1.2, max_gap=20, min_ratio=0.003, max_ratio=0.2)


@check.law(st.fixed_dictionaries(dict(cloud=clouds, signs=st.lists(st.sampled_from([-1, 1]), min_size=3, max_size=3))),
           quick=2500, thorough=50000)
def from_fit(case):
    """The numbers reported for a fit rebuild its plane and angular errors."""
    fit = Orientation(np.array(g.build(case["cloud"])))
    fit = Orientation(fit.array, axes=fit.axes * np.array(case["signs"])[:, None] * fit.singular_values)
    sdr, ae = fit.strike_dip_rake(), fit.angular_errors()
    p = ReconstructedPlane(*sdr, *ae)
    n = np.asarray(fit.axes[2], float)
    expect(g.axis_angle_deg(p.normal, n) < 1e-5, "reconstructed normal {} of fit with normal {}", p.normal, n)
    rebuilt(p, *map(float, sdr), *map(float, ae))
    expect(np.allclose(p.angular_errors(), ae, atol=1e-12, rtol=0) and np.allclose(p.strike_dip_rake(), sdr, atol=1e-12, rtol=0),
           "reported values changed")
    return ["upside-down" if n[2] < 0 else "upright"], True
