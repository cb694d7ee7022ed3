"""C02: fits commute with the symmetries of the data."""
from ..core import Check, Skip, expect
from .. import gens as g
from ..gens import np, st
import math

from attitude import Orientation

check = Check("C02", rule=(
    "Well-conditioned clouds with a known principal frame, each paired with a drawn transformation "
    "(permutation, translation, uniform scaling, rotation about the vertical, mirror images, 180 degree "
    "turn, repetition of every point, uniform axis weights); the fit of the transformed cloud is compared "
    "with the transformed fit. Non-trivial: the transformation is not the identity."),
    assumptions=["tolerances from first-order perturbation theory of the singular vectors"])

clouds = g.frames(max_offset=1e4, size_range=(1e-2, 1e4), min_gap=1.2, max_gap=200,
                  min_ratio=1e-3, max_ratio=0.6)


def tolerances(a, s):
    """Perturbation bounds computed from the actual array."""
    n = len(a)
    d = 64 * g.EPS * (np.abs(a).max() * math.sqrt(n) * 3 + s[0]) * 8
    return d, d / (s[1] - s[2]), d / (s[0] - s[1])


def summary(a, weights=None):
    f = Orientation(a) if weights is None else Orientation(a, weights=weights)
    return dict(axes=np.array(f.axes), sv=np.array(f.singular_values), c=np.array(f.center),
                sd=f.strike_dip(), rake=f.rake(), err=np.array(f.angular_errors()),
                hyp=np.array(f.hyperbolic_axes), ev=np.array(f.eigenvalues), n=f.n,
                xv=f.explained_variance, normal=np.array(f.normal))


def compare(x, y, a, b, T, scale=1.0, count=1, dstrike=0.0, mirror=False, errors=True):
    """y must be x carried through the linear map `scale*T`."""
    s = x["sv"]
    tx = tolerances(a, s)
    ty = tolerances(b, y["sv"])
    ds = tx[0] * scale * math.sqrt(count) + ty[0]
    dn = tx[1] + ty[1] + 1e-10
    d0 = tx[2] + ty[2] + 1e-10
    want = s * scale * math.sqrt(count)
    expect(np.all(np.abs(y["sv"] - want) <= ds), "singular values {} become {}, not {}", s, y["sv"], want)
    for i, lim in ((2, dn), (0, d0), (1, d0 + dn)):
        ang = math.radians(g.axis_angle_deg(y["axes"][i], x["axes"][i].dot(T.T)))
        expect(ang <= lim, "axis {} becomes {}, not {}", i, y["axes"][i], x["axes"][i].dot(T.T))
    nrm = x["normal"].dot(T.T)
    if nrm[2] > 1e-6:
        expect(np.abs(y["normal"] - nrm).max() <= 4 * dn, "upward normal becomes {}, not {}", y["normal"], nrm)
    dip = x["sd"][1]
    expect(abs(y["sd"][1] - dip) <= math.degrees(2 * dn) + 2e-6, "dip {} becomes {}", dip, y["sd"][1])
    sind = math.sin(math.radians(dip))
    if sind > 1e-3:
        ws = x["sd"][0] + dstrike if not mirror else None
        if mirror:
            ws, _ = g.normal_to_strike_dip(nrm)
        diff = g.circ(y["sd"][0], ws)
        if dip > 89.99:
            diff = min(diff, abs(180 - diff))
        expect(diff <= math.degrees(2 * dn / sind) + 1e-6, "strike {} becomes {}, expected {}",
               x["sd"][0], y["sd"][0], ws)
        lim = math.degrees(2 * (dn / sind + d0)) + 1e-5
        # arccos loses half of the digits near 0 and 180 degrees
        lim += math.degrees(2e-8 * 4)
        r = min(abs(y["rake"] - x["rake"]), abs(180 - y["rake"] - x["rake"]))
        expect(r <= lim, "rake {} becomes {}", x["rake"], y["rake"])
    expect(abs(y["xv"] - x["xv"]) < 1e-9 + 4 * ds / want[0], "explained variance changed")
    rel3 = 2 * ds / (want[2] * 1.0)
    if errors and count == 1 and rel3 < 1e-3:
        rel = 4 * rel3 + 1e-9
        h = x["hyp"] * scale ** 2
        lim = rel * np.maximum(x["ev"] * scale ** 2, h) * 4
        expect(np.all(np.abs(y["hyp"] - h) <= lim), "hyperbolic axes {} become {}, not {}", x["hyp"], y["hyp"], h)
        if x["hyp"][1] > 0.05 * x["ev"][1]:
            expect(np.all(np.abs(y["err"] - x["err"]) <= 2000 * rel), "angular errors {} become {}",
                   x["err"], y["err"])


def base(case):
    a = np.array(g.build(case["cloud"]))
    return a, summary(a)


@check.law(st.fixed_dictionaries(dict(cloud=clouds, seed=g.seeds, mode=st.integers(0, 2))),
           quick=1500, thorough=40000)
def permutation(case):
    a, x = base(case)
    n = len(a)
    if case["mode"] == 0:
        p = np.random.RandomState(case["seed"]).permutation(n)
    elif case["mode"] == 1:
        p = np.arange(n)[::-1]
    else:
        p = np.roll(np.arange(n), 1 + case["seed"] % (n - 1))
    b = a[p]
    y = summary(b)
    compare(x, y, a, b, np.eye(3))
    expect(np.abs(x["c"] - y["c"]).max() <= 1e-12 * np.abs(a).max() * n, "center depends on the order of points")
    return g.labels_of(case["cloud"]), True


@check.law(st.fixed_dictionaries(dict(cloud=clouds, t=st.lists(st.floats(-1e6, 1e6), min_size=3, max_size=3))),
           quick=1500, thorough=40000)
def translation(case):
    a, x = base(case)
    t = np.array(case["t"])
    b = a + t
    y = summary(b)
    compare(x, y, a, b, np.eye(3))
    expect(np.abs(x["c"] + t - y["c"]).max() <= 1e-12 * (np.abs(b).max() + np.abs(a).max()) * len(a),
           "center is not translated: {} + {} -> {}", x["c"], t, y["c"])
    return g.labels_of(case["cloud"]), bool(np.any(t))


@check.law(st.fixed_dictionaries(dict(cloud=clouds, k=g.logfloat(1e-4, 1e4))), quick=1500, thorough=40000)
def scaling(case):
    a, x = base(case)
    b = a * case["k"]
    y = summary(b)
    compare(x, y, a, b, np.eye(3), scale=case["k"])
    return g.labels_of(case["cloud"]), case["k"] != 1


@check.law(st.fixed_dictionaries(dict(cloud=clouds, phi=g.angles(-360, 360, special=(90, 180, -90, 45)))),
           quick=2000, thorough=60000)
def vertical_rotation(case):
    """Turning the data counter-clockwise by phi lowers every azimuth by phi."""
    a, x = base(case)
    p = math.radians(case["phi"])
    R = np.array([[math.cos(p), -math.sin(p), 0], [math.sin(p), math.cos(p), 0], [0, 0, 1]])
    b = a.dot(R.T)
    y = summary(b)
    compare(x, y, a, b, R, dstrike=-case["phi"])
    return g.labels_of(case["cloud"]), case["phi"] % 360 != 0


MIRRORS = {"x": [-1, 1, 1], "y": [1, -1, 1], "z": [1, 1, -1], "xy": [-1, -1, 1], "xyz": [-1, -1, -1],
           "xz": [-1, 1, -1], "yz": [1, -1, -1]}


@check.law(st.fixed_dictionaries(dict(cloud=clouds, m=st.sampled_from(sorted(MIRRORS)))), quick=1500, thorough=40000)
def mirror(case):
    a, x = base(case)
    T = np.diag(np.array(MIRRORS[case["m"]], float))
    b = a.dot(T.T)
    y = summary(b)
    xn = dict(x)
    if (x["normal"].dot(T.T))[2] < 0:
        xn["normal"] = -x["normal"]
    compare(xn, y, a, b, T, mirror=True)
    return g.labels_of(case["cloud"]) + [case["m"]], True


@check.law(st.fixed_dictionaries(dict(cloud=clouds, q=st.lists(st.integers(-5, 5), min_size=4, max_size=4))),
           quick=1000, thorough=40000)
def general_rotation(case):
    """A rigid rotation carries the whole principal frame along and keeps the errors."""
    q = np.array(case["q"], float)
    if not q.any():
        q[0] = 1
    w, i, j, k = q / np.linalg.norm(q)
    R = np.array([[1 - 2 * (j * j + k * k), 2 * (i * j - k * w), 2 * (i * k + j * w)],
                  [2 * (i * j + k * w), 1 - 2 * (i * i + k * k), 2 * (j * k - i * w)],
                  [2 * (i * k - j * w), 2 * (j * k + i * w), 1 - 2 * (i * i + j * j)]])
    a, x = base(case)
    b = a.dot(R.T)
    y = summary(b)
    wn = x["axes"][2].dot(R.T)
    s, d = g.normal_to_strike_dip(wn)
    # rake and strike are judged from the rotated frame itself
    tx, ty = tolerances(a, x["sv"]), tolerances(b, y["sv"])
    ds = tx[0] + ty[0]
    dn = tx[1] + ty[1] + 1e-10
    d0 = tx[2] + ty[2] + 1e-10
    expect(np.all(np.abs(y["sv"] - x["sv"]) <= ds), "singular values change under rotation: {} {}", x["sv"], y["sv"])
    for m, lim in ((2, dn), (0, d0), (1, d0 + dn)):
        ang = math.radians(g.axis_angle_deg(y["axes"][m], x["axes"][m].dot(R.T)))
        expect(ang <= lim, "axis {} not carried along", m)
    expect(abs(y["sd"][1] - d) <= math.degrees(2 * dn) + 2e-6, "dip {} not {}", y["sd"][1], d)
    sind = math.sin(math.radians(d))
    if sind > 1e-3:
        diff = g.circ(y["sd"][0], s)
        if d > 89.99:
            diff = min(diff, abs(180 - diff))
        expect(diff <= math.degrees(2 * dn / sind) + 1e-6, "strike {} of the turned cloud, expected {}", y["sd"][0], s)
    rel3 = 2 * ds / x["sv"][2]
    if rel3 < 1e-3 and x["hyp"][1] > 0.05 * x["ev"][1]:
        expect(np.all(np.abs(y["err"] - x["err"]) <= 2000 * (4 * rel3 + 1e-9)),
               "angular errors change under rotation: {} {}", x["err"], y["err"])
    return g.labels_of(case["cloud"]), True


@check.law(st.fixed_dictionaries(dict(cloud=clouds, k=st.integers(2, 4))), quick=600, thorough=20000)
def repetition(case):
    """Repeating every point k times leaves the plane alone."""
    a, x = base(case)
    b = np.vstack([a] * case["k"]) if case["k"] % 2 else np.repeat(a, case["k"], axis=0)
    y = summary(b)
    compare(x, y, a, b, np.eye(3), count=case["k"])
    return g.labels_of(case["cloud"]), True


@check.law(st.fixed_dictionaries(dict(cloud=clouds, w=st.one_of(st.just(1.0), g.logfloat(1e-3, 1e3)))),
           quick=800, thorough=20000)
def uniform_weights(case):
    """Equal weights on the three axes are no weights at all."""
    a, x = base(case)
    w = np.full(3, case["w"])
    y = summary(a, weights=w)
    compare(x, y, a, a, np.eye(3))
    expect(np.all(w == case["w"]), "weights were modified")
    return g.labels_of(case["cloud"]), case["w"] != 1


@check.law(st.fixed_dictionaries(dict(cloud=clouds, w=st.lists(g.logfloat(0.1, 10), min_size=3, max_size=3))), quick=800, thorough=20000)
def axis_weights(case):
    """Weights divide the coordinates (as documented, to standardise them): the axes are those of the divided cloud."""
    a = np.array(g.build(case["cloud"]))
    w = np.array(case["w"])
    y = Orientation(a, weights=w)
    x = Orientation(a / w)
    expect(np.all(w == case["w"]), "weights were modified")
    s = np.array(x.singular_values)
    if s[1] / s[0] > 0.9 or s[2] / s[1] > 0.9:
        raise Skip("axes of the divided cloud are not resolved")
    t = tolerances(a / w, s)
    for i, lim in ((2, t[1]), (0, t[2]), (1, t[1] + t[2])):
        ang = math.radians(g.axis_angle_deg(y.axes[i], x.axes[i]))
        expect(ang <= 4 * lim + 1e-9, "axis {} with weights {} is {}, of the divided points {}", i, case["w"], y.axes[i], x.axes[i])
    expect(np.abs(np.array(y.center) - a.mean(axis=0)).max() <= 1e-12 * np.abs(a).max() * len(a), "center depends on the weights")
    return g.labels_of(case["cloud"]), max(w) / min(w) > 1.5
