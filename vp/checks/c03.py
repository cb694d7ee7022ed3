"""C03: strike, dip and rake follow the geological conventions."""
from ..core import Check, expect
from .. import gens as g
from ..gens import np, st
import math
import re

from attitude import Orientation
from attitude.geom import fit_angle

check = Check("C03", rule=(
    "Clouds built around a plane of drawn strike, dip and in-plane elongation direction (horizontal, "
    "vertical, axis-aligned and arbitrary), optionally re-loaded from stored principal axes with drawn "
    "signs. Non-trivial: the plane's orientation is resolved beyond round-off."),
    assumptions=["x east, y north, z up; azimuths clockwise from north; dip direction is strike + 90"])

clouds = g.frames(max_offset=1e5, size_range=(1e-2, 1e4), min_gap=1.2, max_gap=100,
                  min_ratio=1e-4, max_ratio=0.5)
flat = g.frames(max_offset=0.0, min_gap=1.2, max_gap=50, min_ratio=1e-3, max_ratio=0.5,
                dip=st.just(0.0), strike=st.sampled_from([0.0, 90.0, 180.0, 270.0, 33.0]),
                size_range=(1, 100))


def conventions(fit, f, case, dn, d0):
    sd = fit.strike_dip()
    expect(len(sd) == 2, "strike_dip returned {}", sd)
    strike, dip = map(float, sd)
    expect(math.isfinite(strike) and math.isfinite(dip), "non-finite strike/dip {}", sd)
    expect(0 <= strike <= 360, "strike {} outside [0, 360]", strike)
    expect(0 <= dip <= 90 + 1e-9, "dip {} outside [0, 90]", dip)
    lim = math.degrees(dn) * 2 + 3e-6     # arccos near 0/180
    expect(abs(dip - case["dip"]) <= lim, "dip {} of a plane dipping {}", dip, case["dip"])
    sind = math.sin(math.radians(case["dip"]))
    dd = fit.dip_direction()
    expect(abs(dd[0] - strike - 90) < 1e-9 and dd[1] == dip, "dip_direction {} vs strike/dip {}", dd, sd)
    r3 = fit.strike_dip_rake()
    expect(len(r3) == 3 and r3[0] == strike and r3[1] == dip and r3[2] == fit.rake(),
           "strike_dip_rake {} disagrees with strike_dip {} and rake {}", r3, sd, fit.rake())
    rake = float(fit.rake())
    expect(math.isfinite(rake) and 0 <= rake <= 180, "rake {} outside [0, 180]", rake)
    # the down-dip unit vector lies in the plane, points down, and rake is measured from it
    v = np.asarray(fit.dip_dr, float)
    expect(np.all(np.isfinite(v)) and abs(np.linalg.norm(v) - 1) < 1e-9, "dip direction vector {}", v)
    expect(abs(v.dot(fit.normal)) < 1e-9, "dip direction vector is not in the plane")
    # rake is counted from the same (upper) end of the steepest line for every fit,
    # whichever way its third axis points
    expect(v[2] >= -1e-9, "the steepest line {} points down for this fit: rakes of different fits are not comparable", v)
    expect(abs(abs(v[2]) - math.sin(math.radians(dip))) < 1e-7, "dip line {} is not the steepest line of a plane dipping {}", v, dip)
    expect(abs(g.vec_angle_deg(v, fit.axes[0]) - rake) < 5e-6, "rake {} is not the angle {} between dip direction and axis 0",
           rake, g.vec_angle_deg(v, fit.axes[0]))
    hz = math.hypot(fit.normal[0], fit.normal[1])
    if (hz == 0 or hz > 1e-5) and dip < 89.9:
        # ... and it runs across the reported strike, for a level plane too
        q = g.circ(math.degrees(math.atan2(v[0], v[1])), strike + 90)
        expect(min(q, abs(180 - q)) < 1e-4, "dip line {} does not run across the reported strike {} (dip {})", v, strike, dip)
    expect(abs(np.linalg.norm(fit.normal) - 1) < 1e-9 and fit.normal[2] >= 0, "normal {} is not a upward unit vector", fit.normal)
    resolved = sind > 1e-4 and dn / sind < 1e-2
    if resolved:
        ws = case["strike"] % 360
        diff = g.circ(strike, ws)
        vert = case["dip"] > 90 - max(1e-5, math.degrees(dn) * 4)
        if vert:
            diff = min(diff, abs(180 - diff))
        expect(diff <= math.degrees(2 * dn / sind) + 2e-6, "strike {} of a plane striking {} (dip {})", strike, ws, dip)
        if not vert:
            # the dip line runs across strike
            az = math.degrees(math.atan2(v[0], v[1]))
            if case["dip"] < 89.9:
                q = g.circ(az, strike + 90)
                expect(min(q, abs(180 - q)) < 1e-4, "dip line azimuth {} vs strike {}", az, strike)
        wr = case["k"] % 180
        rr = min(abs(rake - wr), abs(180 - rake - wr), abs(rake - 180 - wr), abs(rake + wr))
        if d0 < 1e-2:
            expect(rr <= math.degrees(2 * (d0 + dn / sind)) + 1e-5, "rake {} for elongation at {} from dip", rake, wr)
    # azimuth/slope describe the same normal line
    az, sl = float(fit.azimuth), float(fit.slope)
    m = [math.sin(sl) * math.sin(az), math.sin(sl) * math.cos(az), math.cos(sl)]
    expect(g.axis_angle_deg(m, fit.normal) < 1e-5, "azimuth/slope {} do not describe the plane's normal {}", (az, sl), fit.normal)
    # printed summary
    nums = re.findall(r"-?\d+\.\d+", repr(fit))
    err = fit.angular_errors()
    got = [float(x) for x in nums]
    want = [strike, dip, err[0], err[1], rake]
    expect(len(got) == 5 and all(abs(a - b) <= 0.0051 for a, b in zip(got, want)),
           "repr {!r} does not report {}", repr(fit), want)
    return resolved


@check.law(clouds, quick=4000, thorough=120000)
def built_plane(case):
    a = g.build(case)
    fit = Orientation(a)
    ds, dn, d0 = g.cond(case)
    f = g.frame_of(case)
    ok = conventions(fit, f, case, 20 * dn + 1e-9, 20 * d0 + 1e-9)
    return g.labels_of(case), bool(ok)


@check.law(st.fixed_dictionaries(dict(cloud=clouds, signs=st.lists(st.sampled_from([-1, 1]), min_size=3, max_size=3))),
           quick=2500, thorough=60000)
def sign_free(case):
    """The reported attitude does not depend on the arbitrary signs of the axes."""
    c = case["cloud"]
    a = g.build(c)
    ref = Orientation(a)
    stored = np.array(ref.axes) * np.array(case["signs"])[:, None] * np.array(ref.singular_values)
    fit = Orientation(a, axes=stored)
    ds, dn, d0 = g.cond(c)
    ok = conventions(fit, g.frame_of(c), c, 20 * dn + 1e-9, 20 * d0 + 1e-9)
    sind = math.sin(math.radians(c["dip"]))
    if ok and c["dip"] < 89.99:
        expect(g.circ(fit.strike_dip()[0], ref.strike_dip()[0]) < 1e-5 / sind, "strike depends on axis signs: {} {}",
               fit.strike_dip(), ref.strike_dip())
    expect(abs(fit.strike_dip()[1] - ref.strike_dip()[1]) < 1e-5, "dip depends on axis signs: {} {}",
           fit.strike_dip(), ref.strike_dip())
    if ok:
        r, q = fit.rake(), ref.rake()
        expect(min(abs(r - q), abs(180 - r - q)) < 1e-5 / sind, "rake {} vs {} after sign change", r, q)
    return g.labels_of(c) + ["signs%s" % case["signs"]], case["signs"] != [1, 1, 1]


@check.law(flat, quick=400, thorough=10000)
def horizontal_plane(case):
    """An exactly level, axis-aligned cloud: finite, consistent conventions."""
    a = np.array(g.build(case))
    a = np.vstack([a, a])
    half = len(a) // 2
    h = case["s"][2] / math.sqrt(len(a))
    c = a[:half].mean(axis=0)
    x = a[:half] - c
    x[:, 2] = h
    y = x.copy()
    y[:, 2] = -h
    cloud = np.vstack([x, y])          # mirror pairs: the normal is vertical
    fit = Orientation(cloud)
    s = np.asarray(fit.singular_values)
    conventions(fit, None, dict(case, dip=0.0), 1e-6, 1.0)
    return ["exact" if abs(fit.normal[2]) == 1 else "rounded"], True


def lines(n):
    return st.lists(st.lists(st.integers(-9, 9), min_size=2, max_size=2), min_size=4, max_size=n)


@check.law(st.fixed_dictionaries(dict(uv=lines(8), axis=st.integers(0, 2), swap=st.booleans())), quick=600, thorough=15000)
def axis_aligned_plane(case):
    """Exact coordinates in a coordinate plane: level or vertical, no NaN anywhere."""
    uv = np.array(case["uv"], float)
    if case["swap"]:
        uv = uv[:, ::-1]
    x = uv - uv.mean(axis=0)
    if np.linalg.matrix_rank(x, tol=1e-6) < 2:
        return ["degenerate"], False
    a = np.insert(uv, case["axis"], 3.0, axis=1)
    fit = Orientation(a)
    s, d = fit.strike_dip()
    want = 0.0 if case["axis"] == 2 else 90.0
    expect(abs(d - want) < 1e-5, "dip {} of plane normal to axis {}", d, case["axis"])
    if case["axis"] < 2:
        ws = [0.0, 90.0][case["axis"]]
        diff = g.circ(s, ws)
        expect(min(diff, abs(180 - diff)) < 1e-5, "strike {} of vertical plane striking {}", s, ws)
    r = fit.rake()
    expect(math.isfinite(r) and -1e-9 <= r <= 180 + 1e-9, "rake {}", r)
    v = np.asarray(fit.dip_dr, float)
    expect(np.all(np.isfinite(v)), "dip direction {}", fit.dip_dr)
    if fit.normal[2] == 1:
        q = g.circ(math.degrees(math.atan2(v[0], v[1])), s + 90)
        expect(min(q, abs(180 - q)) < 1e-6, "dip line {} of a level plane does not run across its strike {}", v, s)
    return ["axis%d" % case["axis"]], True


@check.law(st.fixed_dictionaries(dict(a=clouds, b=clouds)), quick=1200, thorough=40000)
def angle_between(case):
    """fit_angle is the angle between the upward normals of two fits."""
    f1, f2 = (Orientation(g.build(case[k])) for k in "ab")
    n1, n2 = np.asarray(f1.normal, float), np.asarray(f2.normal, float)
    want = g.vec_angle_deg(n1, n2)
    v = fit_angle(f1, f2)
    expect(np.isfinite(v) and abs(v - want) < 5e-6, "fit_angle {} but normals are {} apart", v, want)
    expect(abs(fit_angle(f2, f1) - v) < 5e-6, "fit_angle is not symmetric")
    z = fit_angle(f1, f1)
    expect(np.isfinite(z) and abs(z) < 5e-6, "angle of a fit with itself is {}", z)
    t = [g.cond(case[k])[1] for k in "ab"]
    m1, m2 = g.frame_of(case["a"])[2], g.frame_of(case["b"])[2]
    if max(t) < 1e-4 and m1[2] > 1e-2 and m2[2] > 1e-2:
        w = g.vec_angle_deg(m1, m2)
        expect(abs(v - w) <= math.degrees(20 * sum(t)) + 1e-5, "fit_angle {} for planes {} apart", v, w)
    return [], True
