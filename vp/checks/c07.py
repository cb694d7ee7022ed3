"""C07: exported mappings carry the fit, the whole fit, as plain JSON."""
from ..core import Check, expect
from .. import gens as g
from ..gens import np, st
import json
import math

from attitude import Orientation, ReconstructedPlane, create_groups
from attitude.orientation.grouped import disable_orientations

check = Check("C07", rule=(
    "Fits of drawn clouds (all attitudes incl. level, vertical and upside-down axes), groups of them and "
    "planes reconstructed from angles, exported with drawn extra/overriding keys, serialised with the standard "
    "JSON encoder and read back. Non-trivial: every case exports at least one mapping with all documented keys."),
    assumptions=["standard json module, allow_nan=False: the consumer is JavaScript's JSON.parse"])

KEYS = {"uid", "axes", "hyperbolic_axes", "max_angular_error", "min_angular_error", "strike", "dip", "rake", "disabled"}
clouds = g.frames(sizes=g.sizes_small, max_offset=1e6, size_range=(1e-2, 1e4), min_gap=1.001, max_gap=1e3,
                  min_ratio=1e-3, max_ratio=0.9)
level = st.builds(lambda uv: dict(kind="level", uv=uv),
                  st.lists(st.lists(st.integers(-9, 9), min_size=2, max_size=2), min_size=4, max_size=8))
texts = st.text(max_size=8)
values = st.one_of(texts, st.integers(-10, 10), st.booleans(), st.none(), st.lists(st.integers(0, 5), max_size=3))
extras = st.dictionaries(st.one_of(st.sampled_from(["name", "color", "strike", "uid", "disabled", "center", "rake"]),
                                   st.text("abcdefgh", min_size=1, max_size=5).filter(lambda k: k not in ("self",))),
                         values, max_size=3)


def close(got, want):
    """Same numbers up to the rounding of a repeated computation."""
    got, want = np.asarray(got, float), np.asarray(want, float)
    return bool(np.all(np.abs(got - want) <= 1e-9 * max(np.abs(want).max(initial=0), 1e-300)))


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, (int, float)):
        return abs(a - b) <= 1e-9 * max(abs(a), abs(b))
    return a == b


def roundtrip(m):
    return json.loads(json.dumps(m, allow_nan=False))


def build(c):
    if c["kind"] == "level":
        uv = np.array(c["uv"], float)
        return np.insert(uv, 2, 1.5, axis=1)
    return g.build(c)


def body(m, fit, override=()):
    for k in KEYS - set(override):
        expect(k in m, "exported mapping lacks {!r}", k)

    def eq(k, want):
        if k not in override:
            got = m[k]
            expect(np.shape(got) == np.shape(want) and close(got, want),
                   "exported {} is {}, the fit says {}", k, got, want)
    sdr = fit.strike_dip_rake()
    ae = fit.angular_errors()
    eq("axes", np.asarray(fit.axes, float))
    h = np.asarray(fit.hyperbolic_axes, float)
    # squared lengths, also for reconstructed planes, whose own are not squared
    eq("hyperbolic_axes", h ** 2 if isinstance(fit, ReconstructedPlane) else h)
    eq("strike", float(sdr[0]))
    eq("dip", float(sdr[1]))
    eq("rake", float(sdr[2]))
    eq("min_angular_error", float(ae[0]))
    eq("max_angular_error", float(ae[1]))
    if "uid" not in override:
        expect(m["uid"] == fit.hash and isinstance(m["uid"], str) and m["uid"], "uid {} vs hash {}", m["uid"], fit.hash)
    if "disabled" not in override:
        expect(m["disabled"] is bool(fit.disabled), "disabled {}", m["disabled"])


@check.law(st.fixed_dictionaries(dict(cloud=st.one_of(clouds, clouds, clouds, level), extra=extras, disable=st.booleans(),
                                      signs=st.lists(st.sampled_from([-1, 1]), min_size=3, max_size=3))),
           quick=2500, thorough=60000)
def plain_fit(case):
    a = np.array(build(case["cloud"]))
    if case["cloud"]["kind"] == "level" and np.linalg.matrix_rank(a - a.mean(axis=0), tol=1e-6) < 2:
        return ["degenerate"], False
    fit = Orientation(a)
    if case["cloud"]["kind"] != "level" and case["signs"] != [1, 1, 1]:
        fit = Orientation(a, axes=fit.axes * np.array(case["signs"])[:, None] * fit.singular_values)
    expect(fit.disabled is False and fit.to_mapping()["disabled"] is False, "a new fit is disabled")
    if case["disable"]:
        disable_orientations([fit], fit.hash)
        expect(fit.disabled, "disable_orientations did not disable the fit")
    m = roundtrip(fit.to_mapping())
    body(m, fit)
    c = np.asarray(fit.center, float)
    expect(np.array_equal(m["center"], c), "center {}", m["center"])
    expect(np.array_equal(np.asarray(m["centered_array"], float), np.asarray(fit.centered_array, float)), "centered_array")
    # the exported coordinates are the input coordinates
    back = np.asarray(m["centered_array"], float) + np.asarray(m["center"], float)
    expect(np.abs(back - a).max() <= 1e-9 * (1 + np.abs(a).max()), "center + centered_array is not the input")
    expect("member_of" not in m, "a lone fit claims to be a member")
    # user-supplied values win, everything else is unaffected
    e = case["extra"]
    mm = roundtrip(fit.to_mapping(**e))
    for k, v in e.items():
        expect(k in mm and mm[k] == v, "user-provided {}={!r} exported as {!r}", k, v, mm.get(k))
    body(mm, fit, override=e)
    expect(set(mm) == set(m) | set(e), "unexpected keys {}", set(mm) ^ (set(m) | set(e)))
    for k in set(m) - set(e):
        expect(same(mm[k], m[k]), "{} changed by unrelated overrides", k)
    # exporting twice says the same
    expect(same(roundtrip(fit.to_mapping()), m), "second export differs")
    return [case["cloud"]["kind"]] + (["overrides"] if e else []) + (["disabled"] if case["disable"] else []), True


@check.law(st.fixed_dictionaries(dict(clouds=st.lists(clouds, min_size=2, max_size=4), k=st.integers(1, 3), same=st.booleans(),
                                      off=st.lists(st.integers(0, 4), max_size=2))),
           quick=800, thorough=20000)
def grouped_fit(case):
    fits = [Orientation(np.array(g.build(c)) + i * 1.25) for i, c in enumerate(case["clouds"])]
    uids = [f.hash for f in fits]
    if len(set(uids)) < len(uids):
        return ["duplicate"], False
    k = min(case["k"], len(fits))
    res = create_groups(fits, uids[:k], same_plane=case["same"])
    grp = res[-1]
    off = {i for i in case["off"] if i < len(res)}
    for i in off:
        res[i].disabled = True
    m = roundtrip(grp.to_mapping())
    body(m, grp)
    expect(m["members"] == uids[:k], "members {} expected {}", m["members"], uids[:k])
    expect(m["centered_array"] is None, "grouped export repeats the coordinates of its members")
    allpts = np.vstack([f.array for f in fits[:k]])
    expect(np.abs(np.asarray(m["center"]) - allpts.mean(axis=0)).max() <= 1e-9 * (1 + np.abs(allpts).max()), "group center {}", m["center"])
    expect("member_of" not in m, "the group claims to be a member")
    for i, f in enumerate(res[:-1]):
        mf = roundtrip(f.to_mapping())
        body(mf, f)
        expect(mf["disabled"] is (i in off), "disabled flag of entry {} exported as {}", i, mf["disabled"])
        if i < k:
            expect(mf.get("member_of") == m["uid"], "member_of {} is not the group's uid {}", mf.get("member_of"), m["uid"])
        else:
            expect("member_of" not in mf, "non-member claims membership")
    full = roundtrip(grp.to_mapping(centered_array=[[1, 2, 3]], name="g"))
    expect(full["centered_array"] == [[1, 2, 3]] and full["name"] == "g", "overrides ignored for groups")
    return ["members:%d" % k], True


@check.law(st.fixed_dictionaries(dict(strike=g.angles(0, 360), dip=g.angles(0, 90), rake=g.angles(0, 180),
                                      lo=st.floats(0.01, 40), k=st.floats(1, 2), extra=extras)), quick=1500, thorough=30000)
def reconstructed(case):
    mn, mx = case["lo"], case["lo"] * case["k"]
    p = ReconstructedPlane(case["strike"], case["dip"], case["rake"], mn, mx)
    m = roundtrip(p.to_mapping())
    body(m, p)
    expect((m["strike"], m["dip"], m["rake"], m["min_angular_error"], m["max_angular_error"]) ==
           (case["strike"], case["dip"], case["rake"], mn, mx), "export {} of {}", m, case)
    e = case["extra"]
    mm = roundtrip(p.to_mapping(**e))
    for k, v in e.items():
        expect(mm[k] == v, "user-provided {}={!r} exported as {!r}", k, v, mm.get(k))
    body(mm, p, override=e)
    expect(p.disabled is False and m["disabled"] is False, "a new plane is disabled")
    disable_orientations([p], p.hash)
    expect(roundtrip(p.to_mapping())["disabled"] is True, "a disabled reconstructed plane is exported as enabled")
    q = ReconstructedPlane(case["strike"], case["dip"], case["rake"], mn, mx)
    expect(q.disabled is False, "disabling one reconstructed plane disables others")
    return ["reconstructed"], True


@check.law(st.fixed_dictionaries(dict(a=clouds, b=clouds, nudge=g.logfloat(1e-9, 1e-2), unit=g.logfloat(1e-5, 1e3))), quick=800, thorough=20000)
def identifiers(case):
    """The uid identifies the fit: it is stable, equal for bit-equal principal
    axes and different for different ones.  (Two decompositions of the same data
    need not agree bit for bit, so equality is only asked of equal axes.)"""
    a, b = np.array(g.build(case["a"])), np.array(g.build(case["b"]))
    f1, f2, f3 = Orientation(a), Orientation(a.copy()), Orientation(b)
    p1, p2, p3 = (np.array(f.principal_axes) for f in (f1, f2, f3))
    expect(f1.hash == f1.hash, "the uid changes from query to query")
    if np.array_equal(p1, p2):
        expect(f1.hash == f2.hash, "the same fit has uids {} and {}", f1.hash, f2.hash)
    if not np.array_equal(p1, p3):
        expect(f1.hash != f3.hash, "different fits share uid {}", f1.hash)
    # only the scale differs: still a different fit
    f4 = Orientation(a * 2.0)
    expect(f4.hash != f1.hash, "uid ignores the size of the fit")
    # mirrored
    f5 = Orientation(a * np.array([1, 1, -1.0]))
    if not np.array_equal(np.asarray(f5.principal_axes), p1):
        expect(f5.hash != f1.hash, "different fits share uid {}", f1.hash)
    # fits that agree to many digits, or in small units
    u = a * case["unit"]
    v = u.copy()
    v[0, 2] += case["nudge"] * np.ptp(u[:, :2], axis=0).max()
    f6, f7 = Orientation(u), Orientation(v)
    if not np.array_equal(np.asarray(f6.principal_axes), np.asarray(f7.principal_axes)):
        expect(f6.hash != f7.hash, "nearly equal, but different fits share uid {}", f6.hash)
    return [], True
