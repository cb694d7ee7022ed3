"""Oracle for error surfaces: decode plotted positions to physical directions
(x east, y north, z up) and evaluate the cone equations in the frame of the plane."""
import math
import numpy as np


def sph(lonlat):
    lonlat = np.asarray(lonlat, float)
    lon, lat = lonlat[:, 0], lonlat[:, 1]
    return np.column_stack([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)])


def plane_vectors(lonlat, traditional=True):
    """Direction within the uncertain plane encoded by a girdle position."""
    q = sph(lonlat)
    if traditional:      # q = (z, x, y)
        return np.column_stack([q[:, 1], q[:, 2], q[:, 0]])
    return np.column_stack([q[:, 1], -q[:, 0], q[:, 2]])


def normal_vectors(lonlat, traditional=True):
    """Upward normal encoded by a pole position."""
    q = sph(lonlat)
    if traditional:      # q = (z, x, -y)
        return np.column_stack([q[:, 1], -q[:, 2], q[:, 0]])
    return np.column_stack([q[:, 1], -q[:, 0], q[:, 2]])


def local(v, axes):
    """Components along the axes, with the third axis taken upwards."""
    A = np.array(axes, float)
    if A[2, 2] < 0:
        A = -A
    return v.dot(A.T)


def plane_cone_residual(w, d, level=1.0):
    """Zero on the cone (x/d1)^2 + (y/d2)^2 = (z/(2 level d3))^2; relative."""
    if level == 0:
        return np.abs(w[:, 2])
    q = (w[:, 0] / d[0]) ** 2 + (w[:, 1] / d[1]) ** 2
    r = (w[:, 2] / (2 * level * d[2])) ** 2
    return np.abs(q - r) / (q + r)


def normal_cone_residual(w, d, level=1.0):
    q = (w[:, 0] * d[0]) ** 2 + (w[:, 1] * d[1]) ** 2
    r = (w[:, 2] * 2 * level * d[2]) ** 2
    return np.abs(q - r) / (q + r)


def gaps(theta):
    """Largest angular gap of a closed ring of parameter angles (radians)."""
    t = np.sort(np.mod(theta, 2 * math.pi))
    return float(np.max(np.diff(np.append(t, t[0] + 2 * math.pi))))


def steps(theta):
    """Successive increments, wrapped to (-pi, pi]."""
    return (np.diff(theta) + math.pi) % (2 * math.pi) - math.pi
