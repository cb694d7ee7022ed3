"""Generated ellipsoids/ellipses/hyperboloids of known geometry."""
from . import env  # noqa: F401
import math

import numpy as np
from hypothesis import strategies as st

from . import gens as g


def rotation(dim, seed):
    """A random rotation (seed 0: identity, 1: a quarter turn)."""
    if seed == 0:
        return np.eye(dim)
    if seed == 1:
        R = np.roll(np.eye(dim), 1, axis=0)
        return R if np.linalg.det(R) > 0 else R * np.array([[-1.0]] + [[1.0]] * (dim - 1))
    q, r = np.linalg.qr(np.random.RandomState(seed % (2 ** 31)).standard_normal((dim, dim)))
    q = q * np.sign(np.diag(r))
    if np.linalg.det(q) < 0:
        q[:, 0] *= -1
    return q


rot = st.one_of(st.sampled_from([0, 1]), g.seeds)


@st.composite
def ellipsoids(draw, dims=(2, 3), lo=0.05, hi=20.0, offset=10.0):
    d = draw(st.sampled_from(list(dims)))
    return dict(dim=d, a=draw(st.lists(g.logfloat(lo, hi), min_size=d, max_size=d)),
                c=draw(st.one_of(st.just([0.0] * d), st.lists(st.floats(-offset, offset), min_size=d, max_size=d))),
                rot=draw(rot))


def matrix(e, signs=None):
    """Homogeneous matrix C with x'Cx <= 0 inside; built from scratch.
    Rows of R are the principal directions."""
    d = e["dim"]
    R, a, c = rotation(d, e["rot"]), np.array(e["a"], float), np.array(e["c"], float)
    s = np.ones(d) if signs is None else np.array(signs, float)
    A = R.T.dot(np.diag(s / a ** 2)).dot(R)
    C = np.zeros((d + 1, d + 1))
    C[:d, :d] = A
    C[:d, d] = C[d, :d] = -A.dot(c)
    C[d, d] = c.dot(A).dot(c) - 1
    return C


def value(e, p, signs=None):
    """Quadratic form at p (scale-free: -1 at the centre, 0 on the surface)."""
    R, a, c = rotation(e["dim"], e["rot"]), np.array(e["a"], float), np.array(e["c"], float)
    s = np.ones(e["dim"]) if signs is None else np.array(signs, float)
    q = R.dot(np.asarray(p, float) - c) / a
    return float((s * q * q).sum() - 1)


def surface_point(e, u):
    """Point on the ellipsoid in the direction u of the unit sphere."""
    u = np.asarray(u, float)
    u = u / np.linalg.norm(u)
    R, a, c = rotation(e["dim"], e["rot"]), np.array(e["a"], float), np.array(e["c"], float)
    return c + R.T.dot(u * a)


def signed_point(e, u, signs):
    """Point on the quadric with these signs, seen from its centre in the direction u
    (of the unit sphere), or None where there is none nearby."""
    u = np.asarray(u, float)
    u = u / np.linalg.norm(u)
    k = float((np.array(signs, float) * u * u).sum())
    if k < 0.05:
        return None
    R, a, c = rotation(e["dim"], e["rot"]), np.array(e["a"], float), np.array(e["c"], float)
    return c + R.T.dot(u / math.sqrt(k) * a)


def cond(e):
    """How much round-off in C is amplified when evaluating the form."""
    a, c = np.array(e["a"]), np.array(e["c"])
    return float(((np.abs(c).max() + a.max()) / a.min()) ** 2 + 1)


def units(dim):
    return st.lists(st.floats(-1, 1), min_size=dim, max_size=dim)


unit3 = st.lists(st.floats(-1, 1), min_size=3, max_size=3).filter(lambda v: 0.05 < math.sqrt(sum(x * x for x in v)))
