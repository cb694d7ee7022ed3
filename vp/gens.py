"""Generators.  Every case is a JSON-able dict; builders turn it into arrays.

`frames` cases are built from a *known* answer: an orthonormal frame (strike,
dip and in-plane angle), singular values, a centre and an orthonormal "shape"
matrix (from a drawn integer seed), so that the exact principal axes, singular
values, centre and plane of the cloud are known by construction.  `explicit`
cases are small lists of drawn coordinates (integers over a drawn power of ten),
which reach degenerate clouds: coincident, collinear, duplicated points.
"""
from . import env  # noqa: F401
import math

import numpy as np
from hypothesis import strategies as st

EPS = np.finfo(float).eps

# ---------------------------------------------------------------- numbers

def angles(lo, hi, special=()):
    """Angles in degrees: special values, 'round' values and arbitrary ones."""
    return st.one_of(
        st.sampled_from([float(x) for x in special]) if special else st.just(float(lo)),
        st.integers(int(math.ceil(lo)), int(math.floor(hi))).map(float),
        st.floats(lo, hi, allow_nan=False, allow_infinity=False, width=64),
    )


strikes = angles(0, 360, special=(0, 45, 90, 135, 180, 225, 270, 315, 359.999, 1e-6))
dips = angles(0, 90, special=(0, 1e-6, 0.01, 30, 45, 60, 89.99, 90))
dips_open = st.one_of(st.integers(1, 89).map(float), st.floats(0.05, 89.95))
inplane = angles(0, 180, special=(0, 30, 45, 90, 135, 180))
seeds = st.integers(0, 2 ** 31 - 1)


def logfloat(lo, hi):
    return st.floats(math.log10(lo), math.log10(hi)).map(lambda e: float(10.0 ** e))


confidences = st.one_of(st.sampled_from([0.5, 0.68, 0.9, 0.95, 0.99]),
                        st.floats(0.05, 0.999))
levels = st.one_of(st.sampled_from([0.5, 1.0, 2.0, 3.0]), st.floats(0.1, 5))


# ---------------------------------------------------------------- geometry oracle

def plane_frame(strike, dip, k):
    """Rows: in-plane axis 1 at angle k (deg) from the dip vector towards the
    strike vector, in-plane axis 2, upward normal.  x east, y north, z up;
    azimuths clockwise from north; dip direction = strike + 90."""
    s, d, a = map(math.radians, (strike, dip, k))
    u = np.array([math.sin(s), math.cos(s), 0.0])                 # strike
    h = np.array([math.cos(s), -math.sin(s), 0.0])                # dip azimuth
    v = np.array([h[0] * math.cos(d), h[1] * math.cos(d), -math.sin(d)])  # down dip
    n = np.array([h[0] * math.sin(d), h[1] * math.sin(d), math.cos(d)])   # upward normal
    e1 = math.cos(a) * v + math.sin(a) * u
    e2 = -math.sin(a) * v + math.cos(a) * u
    return np.array([e1, e2, n])


def normal_to_strike_dip(n):
    n = np.asarray(n, float)
    n = n / np.linalg.norm(n)
    if n[2] < 0:
        n = -n
    dip = math.degrees(math.atan2(math.hypot(n[0], n[1]), n[2]))
    strike = (math.degrees(math.atan2(n[0], n[1])) - 90) % 360
    return strike, dip


def circ(a, b):
    """Smallest difference of two azimuths, degrees."""
    return abs((a - b + 180) % 360 - 180)


def axis_angle_deg(a, b):
    """Angle between two lines (sign-free), accurate for small angles."""
    a = np.asarray(a, float) / np.linalg.norm(a)
    b = np.asarray(b, float) / np.linalg.norm(b)
    c = np.linalg.norm(np.cross(a, b))
    return math.degrees(math.atan2(c, abs(float(np.dot(a, b)))))


def vec_angle_deg(a, b):
    a = np.asarray(a, float) / np.linalg.norm(a)
    b = np.asarray(b, float) / np.linalg.norm(b)
    c = np.linalg.norm(np.cross(a, b))
    return math.degrees(math.atan2(c, float(np.dot(a, b))))


# ---------------------------------------------------------------- clouds

def shape_matrix(n, seed, style=0):
    """n x 3 matrix with orthonormal columns, each summing to zero."""
    rng = np.random.RandomState(seed)
    if style == 0:
        a = rng.standard_normal((n, 3))
    elif style == 1:
        a = rng.uniform(-1, 1, (n, 3))
    else:  # skewed / clustered
        a = rng.exponential(1.0, (n, 3)) * rng.choice([-1, 1], (n, 3), p=[.2, .8])
    a = a - a.mean(axis=0)
    if n >= 4:
        q, _ = np.linalg.qr(np.column_stack([np.ones(n), a]))
        return q[:, 1:4]
    q, _ = np.linalg.qr(np.column_stack([np.ones(n), a[:, :2]]))
    return np.column_stack([q[:, 1:3], np.zeros(n)])


def mostly(usual, rare, every=12):
    """`rare` in about one of `every` cases."""
    return st.integers(0, every - 1).flatmap(lambda k: rare if k == every - 1 else usual)


sizes = mostly(st.one_of(st.integers(4, 8), st.integers(9, 60), st.integers(61, 300)), st.integers(301, 2500))
sizes_small = mostly(st.one_of(st.integers(4, 8), st.integers(9, 40)), st.integers(41, 1200))

layouts = st.sampled_from(["C", "C", "F", "strided", "reversed", "readonly"])


@st.composite
def frames(draw, sizes=sizes, max_offset=1e6, min_gap=1.05, max_gap=1e4,
           noise=True, dip=dips, strike=strikes, dtype=("f8",), layout=True,
           size_range=(1e-3, 1e6), min_ratio=1e-5, max_ratio=0.9):
    """A cloud with a known, well-separated principal frame.

    s1/s2 >= min_gap, s3/s2 in [min_ratio, max_ratio]; both drawn in logs.
    """
    n = draw(sizes)
    length = draw(logfloat(*size_range))
    gap = draw(logfloat(min_gap, max_gap))
    ratio = draw(logfloat(min_ratio, max_ratio))
    s1 = length * math.sqrt(n)
    s2 = s1 / gap
    s3 = s2 * ratio if noise else 0.0
    off = draw(st.one_of(
        st.just([0.0, 0.0, 0.0]),
        st.lists(st.floats(-1, 1), min_size=3, max_size=3).map(lambda v: [x * length for x in v]),
        st.lists(st.floats(-max_offset, max_offset), min_size=3, max_size=3)))
    c = dict(kind="frame", n=n, strike=draw(strike), dip=draw(dip), k=draw(inplane),
             s=[s1, s2, s3], offset=off, seed=draw(seeds), style=draw(st.integers(0, 2)),
             dtype=draw(st.sampled_from(list(dtype))),
             layout=draw(layouts) if layout else "C")
    return c


@st.composite
def explicit(draw, min_n=3, max_n=9, bound=50):
    n = draw(st.integers(min_n, max_n))
    pts = draw(st.lists(st.lists(st.integers(-bound, bound), min_size=3, max_size=3),
                        min_size=n, max_size=n))
    e = draw(st.one_of(st.integers(-4, 6), st.integers(-10, -5)))
    off = draw(st.lists(st.integers(-10 ** 6, 10 ** 6), min_size=3, max_size=3)
               if draw(st.booleans()) else st.just([0, 0, 0]))
    return dict(kind="explicit", pts=pts, exp=e, offset=off,
                dtype=draw(st.sampled_from(["f8", "f8", "i8", "f4", "u1"])),
                layout=draw(layouts))


def relayout(a, layout):
    if layout == "F":
        return np.asfortranarray(a)
    if layout == "strided":
        b = np.zeros((a.shape[0] * 2, a.shape[1] + 2), dtype=a.dtype) - 7
        b[::2, 1:-1] = a
        return b[::2, 1:-1]
    if layout == "reversed":
        return np.ascontiguousarray(a[::-1, ::-1])[::-1, ::-1]
    a = np.ascontiguousarray(a)
    if layout == "readonly":
        a = a.copy()
        a.setflags(write=False)
    return a


def build(c):
    """The coordinate array of a cloud case."""
    if c["kind"] == "explicit":
        p = np.array(c["pts"], dtype=float)
        if c["dtype"] == "i8":
            a = np.array(c["pts"], dtype=np.int64) * 3 + np.array(c["offset"], dtype=np.int64)
        elif c["dtype"] == "u1":
            a = (np.array(c["pts"], dtype=np.int64) + 128).astype(np.uint8)
        elif c["dtype"] == "f4":
            a = p.astype(np.float32)
        else:
            a = p * 10.0 ** c["exp"] + np.array(c["offset"], float)
        return relayout(a, c["layout"])
    u = shape_matrix(c["n"], c["seed"], c["style"])
    f = plane_frame(c["strike"], c["dip"], c["k"])
    a = (u * np.array(c["s"])).dot(f) + np.array(c["offset"])
    if c.get("dtype", "f8") != "f8":
        a = a.astype(c["dtype"])
    return relayout(a, c.get("layout", "C"))


def frame_of(c):
    return plane_frame(c["strike"], c["dip"], c["k"])


def roundoff(c):
    """Absolute coordinate uncertainty of a frame case: what rounding of the
    coordinates (offset + extent) and of the centring can move a point by."""
    m = max(abs(x) for x in c["offset"]) + c["s"][0]
    return 16 * EPS * m * math.sqrt(c["n"])


def cond(c):
    """(error of singular values, angular error (rad) of normal, of axis 0),
    first-order perturbation bounds given coordinate round-off."""
    s1, s2, s3 = c["s"]
    d = roundoff(c) * math.sqrt(3 * c["n"]) + 64 * EPS * s1
    return d, d / max(s2 - s3, 1e-300), d / max(s1 - s2, 1e-300)


def labels_of(c):
    out = []
    if c["kind"] == "explicit":
        out += ["explicit", "dtype:" + c["dtype"], "n=%d" % len(c["pts"])]
    else:
        d = c["dip"]
        out.append("frame")
        out.append("n<=8" if c["n"] <= 8 else "n<=60" if c["n"] <= 60 else "n>60")
        out.append("horizontal" if d == 0 else "vertical" if d == 90 else
                   "near-horizontal" if d < 0.1 else "near-vertical" if d > 89.9 else "dipping")
        if max(map(abs, c["offset"])) > 100 * c["s"][0]:
            out.append("far-from-origin")
        if c["s"][1] > 0 and c["s"][0] / c["s"][1] > 100:
            out.append("elongate")
        if c["s"][2] == 0:
            out.append("noise-free")
    out.append("layout:" + c.get("layout", "C"))
    return out
