"""C09: grouping pools the members' data and keeps exact membership."""
from ..core import Check, expect
from .. import gens as g
from .. import oracle as o
from ..gens import np, st
import math

from attitude import Orientation, create_groups
from attitude.orientation.grouped import GroupedOrientation, GroupedPlaneError, disable_orientations

check = Check("C09", rule=(
    "3-7 measurements and a history of 1-6 steps (group by uid lists with or without copying, with or without "
    "'same plane', requests that must be refused, disabling), each step starting from the result of the previous "
    "one, against a model that tracks membership, order and pooled coordinates. Non-trivial: at least one group was formed."),
    assumptions=["members are fits of generated clouds with distinct uids; uids within one request are distinct",
                 "a group of one shares its member's uid (same fit): histories stop there, such a group is checked when formed"])

clouds = g.frames(sizes=g.mostly(st.integers(4, 12), st.integers(40, 300)), max_offset=300.0, size_range=(0.5, 50), min_gap=1.2, max_gap=6,
                  min_ratio=0.02, max_ratio=0.4, layout=False)

pick = g.mostly(st.lists(st.integers(0, 9), min_size=1, max_size=4), st.lists(st.integers(0, 9), min_size=4, max_size=10), 6)
step = st.one_of(
    st.fixed_dictionaries(dict(op=st.just("group"), lists=st.lists(pick, min_size=1, max_size=3),
                               same=st.booleans(), copy=st.sampled_from([True, True, False]))),
    st.fixed_dictionaries(dict(op=st.just("group"), lists=st.lists(pick, min_size=1, max_size=2),
                               same=st.booleans(), copy=st.just(True))),
    st.fixed_dictionaries(dict(op=st.just("disable"), which=pick)),
    st.fixed_dictionaries(dict(op=st.just("ungroup"), i=st.integers(0, 9), copy=st.booleans(),
                               again=st.booleans(), same=st.booleans())),
    st.fixed_dictionaries(dict(op=st.sampled_from(["unknown", "regroup", "nested", "disable_unknown", "twice"]),
                               i=st.integers(0, 9), j=st.integers(0, 9))))


def pooled(arrays, same):
    """Coordinates a group of these members is fitted to, and their mean."""
    allpts = np.vstack(arrays)
    if same:
        pts = allpts - allpts.mean(axis=0)
    else:
        pts = np.vstack([a - a.mean(axis=0) for a in arrays])
    return pts, allpts.mean(axis=0)


def check_group(grp, arrays, same):
    pts, mean = pooled(arrays, same)
    n = len(pts)
    scale = np.abs(np.vstack(arrays)).max()
    scatter = pts.T.dot(pts)
    A, s = np.asarray(grp.axes, float), np.asarray(grp.singular_values, float)
    expect(np.abs(A.dot(A.T) - np.eye(3)).max() < 1e-9, "group axes are not orthonormal")
    tol = 1e-9 * (np.trace(scatter) + scale ** 2)
    expect(np.abs(A.T.dot(np.diag(s ** 2)).dot(A) - scatter).max() <= tol,
           "group of {} members (same plane: {}) is not the fit of their pooled {}coordinates",
           len(arrays), same, "" if same else "centred ")
    expect(grp.n == n, "group has n={}, its members have {} points", grp.n, n)
    expect(np.abs(np.asarray(grp.mean) - mean).max() <= 1e-9 * (1 + scale), "group mean {} expected {}", grp.mean, mean)
    expect(np.abs(np.asarray(grp.center) - mean).max() <= 1e-9 * (1 + scale), "group center {} expected {}", grp.center, mean)
    c = np.asarray(grp.centered_array)
    expect(c.shape == pts.shape and np.abs(c - pts).max() <= 1e-9 * (1 + scale), "group coordinates are not the members' in order")
    ev = s ** 2 / (n - 1)
    want = o.noise_axes(ev, n)
    got = np.asarray(grp.hyperbolic_axes, float)
    expect(np.all(np.abs(got - want) <= 1e-7 * want), "group errors {} expected {}", got, want)
    expect(bool(grp.same_plane) == same, "same_plane flag {}", grp.same_plane)


class Model:
    """Items are ints (base index) or ('g', tuple of bases, same)."""

    def __init__(self, arrays):
        self.arrays = arrays
        self.items = list(range(len(arrays)))
        self.disabled = [False] * len(arrays)

    def owner(self, base):
        for k, it in enumerate(self.items):
            if not isinstance(it, int) and base in it[1]:
                return k
        return None

    def copy(self):
        m = Model(self.arrays)
        m.items, m.disabled = list(self.items), list(self.disabled)
        return m


def check_all(objs, model, seen_groups):
    expect(len(objs) == len(model.items), "result has {} entries, expected {}", len(objs), len(model.items))
    for k, (ob, it) in enumerate(zip(objs, model.items)):
        expect(bool(ob.disabled) == model.disabled[k], "entry {}: disabled is {}", k, ob.disabled)
        if isinstance(it, int):
            expect(not hasattr(ob, "members"), "plain measurement has members")
            expect(np.array_equal(np.asarray(ob.array), model.arrays[it]), "entry {} is not the measurement that was there", k)
            own = model.owner(it)
            mo = getattr(ob, "member_of", None)
            if own is None:
                expect(mo is None, "entry {} is in no group but claims membership", k)
            else:
                expect(mo is objs[own], "entry {} does not name the group it belongs to (entry {})", k, own)
            m = ob.to_mapping()
            expect(m.get("member_of") == (None if own is None else objs[own].hash), "exported membership {}", m.get("member_of"))
        else:
            members = list(ob.members)
            expect(len(members) == len(it[1]), "group has {} members, expected {}", len(members), len(it[1]))
            for mem, b in zip(members, it[1]):
                expect(mem is objs[b], "group member is not the measurement in the same result")
            expect(getattr(ob, "member_of", None) is None, "a group claims to be a member")
            if (k, it) not in seen_groups:
                check_group(ob, [model.arrays[b] for b in it[1]], it[2])


@check.law(st.fixed_dictionaries(dict(clouds=g.mostly(st.lists(clouds, min_size=3, max_size=7), st.lists(clouds, min_size=8, max_size=10)),
                                      steps=st.lists(step, min_size=1, max_size=6))), quick=5000, thorough=100000)
def history(case):
    arrays = [np.array(g.build(c)) + 0.37 * i for i, c in enumerate(case["clouds"])]
    objs = [Orientation(a.copy()) for a in arrays]
    if len({x.hash for x in objs}) < len(objs):
        return ["duplicate"], False
    nbase = len(arrays)
    model = Model(arrays)
    labels = set()
    made = 0
    olds = []     # earlier results that must not be disturbed
    for s in case["steps"]:
        if len({x.hash for x in objs}) < len(objs):
            labels.add("ambiguous-uids")   # e.g. a group of one: uids cannot address it
            break
        free = [i for i in range(nbase) if model.owner(i) is None]
        held = [i for i in range(nbase) if model.owner(i) is not None]
        groups = [k for k, it in enumerate(model.items) if not isinstance(it, int)]
        if s["op"] == "group":
            lists, avail = [], list(free)
            for l in s["lists"]:
                cur = []
                for v in l:
                    if avail:
                        cur.append(avail.pop(v % len(avail)))
                if len(cur) == 1 and avail and l[0] % 4:
                    cur.append(avail.pop())
                if cur:
                    lists.append(cur)
            if not lists:
                continue
            uids = [[objs[b].hash for b in l] for l in lists]
            before = list(objs)
            oldmodel = model.copy()
            given = objs
            if s["copy"]:
                # any iterable will do when it is copied anyway
                given = (objs, tuple(objs), iter(objs), objs)[sum(map(sum, lists)) % 4]
            res = create_groups(given, *uids, same_plane=s["same"], copy=s["copy"])
            model = model.copy()
            for l in lists:
                model.items.append(("g", tuple(l), s["same"]))
                model.disabled.append(False)
            if s["copy"]:
                expect(len(objs) == len(before) and all(a is b for a, b in zip(objs, before)), "create_groups changed the caller's list")
                expect(not any(a is b for a in res for b in before), "create_groups returned the originals despite copying")
                olds.append((before, oldmodel))
                labels.add("copy")
            else:
                expect(all(a is b for a, b in zip(res, before)), "copy=False returned copies")
                olds = [x for x in olds if not any(a is b for a in x[0] for b in before)]
                labels.add("no-copy")
            objs = res
            made += len(lists)
            labels.add("same-plane" if s["same"] else "parallel-planes")
            if len(lists) > 1:
                labels.add("several-groups-at-once")
            if groups:
                labels.add("with-existing-groups")
        elif s["op"] == "ungroup":
            if not groups:
                continue
            # leave a group out and ask again: its members are free (or in the new group)
            k = groups[s["i"] % len(groups)]
            before, oldmodel = list(objs), model.copy()
            sub = objs[:k] + objs[k + 1:]
            members, model = list(model.items[k][1]), model.copy()
            del model.items[k], model.disabled[k]
            uids = [[objs[b].hash for b in members]] if s["again"] else []
            if s["copy"]:
                olds.append((before, oldmodel))
            else:
                olds = [x for x in olds if not any(a is b for a in x[0] for b in before)]
            objs = create_groups(sub, *uids, same_plane=s["same"], copy=s["copy"])
            if s["again"]:
                model.items.append(("g", tuple(members), s["same"]))
                model.disabled.append(False)
            labels.add("ungroup")
        elif s["op"] == "disable":
            ks = sorted({v % len(objs) for v in s["which"]})
            r = disable_orientations(objs, *[objs[k].hash for k in ks])
            expect(r is objs or list(r) == list(objs), "disable_orientations returned something else")
            for k in ks:
                model.disabled[k] = True
            # copies share nothing with earlier results
            labels.add("disable")
        else:
            exc = None
            # unlike any identifier, or like one in part
            like = objs[s["i"] % len(objs)].hash
            alien = ["nosuchid", like[:-1], like[:4], like + "0", like[1:], like.upper(), "", " " + like, like[::-1], None][s["j"]]
            if any(alien == o.hash for o in objs):
                alien = "nosuchid"
            if s["op"] == "unknown":
                want, uids = KeyError, [[objs[s["i"] % nbase].hash if free and s["i"] % nbase in free else alien, alien]]
            elif s["op"] == "regroup" and held:
                want, uids = GroupedPlaneError, [[objs[held[s["i"] % len(held)]].hash]]
            elif s["op"] == "nested" and groups:
                want, uids = GroupedPlaneError, [[objs[groups[s["i"] % len(groups)]].hash]]
            elif s["op"] == "twice" and free:
                want, uids = GroupedPlaneError, [[objs[free[s["i"] % len(free)]].hash]] * 2
            elif s["op"] == "disable_unknown":
                try:
                    disable_orientations(objs, alien)
                    expect(False, "disabling an unknown uid was accepted")
                except KeyError:
                    pass
                labels.add("refused:disable_unknown")
                check_all(objs, model, ())
                continue
            else:
                continue
            try:
                create_groups(objs, *uids)
            except (KeyError, GroupedPlaneError) as e:
                exc = e
            expect(isinstance(exc, want), "{}: request {} gave {!r}, expected {}", s["op"], uids, exc, want.__name__)
            labels.add("refused:" + s["op"])
        check_all(objs, model, ())
        for old, om in olds:
            check_all(old, om, ())
    return sorted(labels), made > 0


@check.law(st.fixed_dictionaries(dict(clouds=st.lists(clouds, min_size=1, max_size=5), same=st.sampled_from([True, False, None]))),
           quick=1500, thorough=30000)
def direct(case):
    """The group class itself: pooling, membership, refusal to nest."""
    arrays = [np.array(g.build(c)) for c in case["clouds"]]
    fits = [Orientation(a) for a in arrays]
    kw = {} if case["same"] is None else dict(same_plane=case["same"])
    grp = GroupedOrientation(*fits, **kw)
    check_group(grp, arrays, bool(case["same"]))
    for f, m in zip(fits, grp.members):
        expect(f is m and f.member_of is grp, "membership not recorded")
    lone = Orientation(arrays[0] + 5.0)
    try:
        GroupedOrientation(lone, grp)
        ok = False
    except GroupedPlaneError:
        ok = True
    expect(ok, "a group was accepted as member of a group")
    expect(getattr(lone, "member_of", None) is None, "a refused grouping left a membership behind")
    return ["members:%d" % len(fits)], len(fits) > 1


@check.law(st.fixed_dictionaries(dict(clouds=st.lists(clouds, min_size=3, max_size=6), keep=st.lists(st.booleans(), min_size=6, max_size=6),
                                      first=st.booleans())), quick=800, thorough=15000)
def part_of_a_result(case):
    """A selection of an earlier result (a group without all of its members) can be grouped further with copying."""
    arrays = [np.array(g.build(c)) + 0.37 * i for i, c in enumerate(case["clouds"])]
    objs = [Orientation(a.copy()) for a in arrays]
    if len({x.hash for x in objs}) < len(objs):
        return ["duplicate"], False
    res = create_groups(objs, [objs[0].hash, objs[1].hash])
    grp = res[-1]
    snap = [(x, x.member_of, x.disabled) for x in res]
    sub = [x for x, k in zip(res[:-1], case["keep"]) if k]
    sub = [grp] + sub if case["first"] else sub + [grp]
    out = create_groups(sub)
    expect(len(out) == len(sub) and not any(a is b for a in out for b in res), "create_groups returned the originals despite copying")
    for x, m, d in snap:
        expect(x.member_of is m and x.disabled == d, "grouping with copying changed the caller's measurement")
    expect(tuple(grp.members) == tuple(res[:2]), "grouping with copying changed the caller's group")
    g2 = out[sub.index(grp)]
    expect([np.array_equal(m.array, a) for m, a in zip(g2.members, arrays)] == [True, True] and len(g2.members) == 2, "the group's members changed")
    for m in g2.members:
        expect(m.member_of is g2 and not any(m is x for x in res), "members of the copied group do not belong to it")
    for x, y in zip(sub, out):
        if x is grp:
            continue
        inside = any(x is m for m in grp.members)
        expect((y.member_of is g2) if inside else (y.member_of is None), "membership of a kept measurement is wrong")
        if inside:
            expect(any(y is m for m in g2.members), "the copied group does not list the copied measurement")
    return ["kept %d" % len(sub)], len(sub) > 1
