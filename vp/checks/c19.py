"""C19: points extracted from a DEM are the DEM's own values at the right places."""
from ..core import Check, Skip, expect
from .. import gens as g
from ..gens import np, st
import math

from affine import Affine
from rasterio.io import MemoryFile
from shapely.geometry import Point, LineString, MultiLineString, Polygon, MultiPolygon

from attitude.helpers import dem as D
from attitude.helpers import interpolation as I

check = Check("C19", rule=(
    "Small rasters (3-14 pixels a side, some of several hundred, one to three bands, several number types, drawn geotransforms incl. rotated and south-up ones, "
    "drawn nodata holes) held in memory, and drawn points, lines, multi-lines, polygons with holes and multi-polygons over them; results compared with a "
    "pixel-by-pixel reference (area) and a hand-written bilinear interpolation of pixel centres (lines). "
    "Non-trivial: at least three points extracted."),
    assumptions=["pixels whose centre is within 1e-6 pixel of the outline are not judged", "vertices within 1e-9 pixel of a grid line next to nodata are not judged",
                 "rasterio/GDAL in-memory GeoTIFF driver"])


@st.composite
def rasters(draw):
    side = g.mostly(st.integers(3, 14), st.integers(15, 80))
    w, h = draw(side), draw(side)
    kind = draw(st.sampled_from(["north-up", "north-up", "south-up", "rotated"]))
    dx, dy = draw(st.sampled_from([1.0, 2.0, 0.5, 30.0])), draw(st.sampled_from([1.0, 2.0, 0.5, 30.0]))
    if draw(st.integers(0, 2)) == 0:      # small map units, as in degrees or planetary radians
        u = draw(st.sampled_from([1e-2, 1e-4, 1e-5]))
        dx, dy = dx * u, dy * u
    rot = draw(st.floats(5, 85)) if kind == "rotated" else 0.0
    return dict(w=w, h=h, bands=draw(st.integers(1, 3)), dtype=draw(st.sampled_from(["float32", "float64", "int16", "uint8"])), kind=kind, dx=dx,
                dy=dy if kind == "south-up" else -dy, rot=rot, ox=float(draw(st.integers(-180, 180) if dx < 0.1 else st.integers(-1000, 1000))), oy=float(draw(st.integers(-180, 180) if dx < 0.1 else st.integers(-1000, 1000))),
                seed=draw(g.seeds), nodata=draw(st.sampled_from([None, None, "some", "many", "nan"])), surface=draw(st.sampled_from(["noise", "plane"])))


def data_of(r):
    rng = np.random.RandomState(r["seed"])
    shape = (r["bands"], r["h"], r["w"])
    if r["surface"] == "plane":
        j, i = np.meshgrid(np.arange(r["w"]), np.arange(r["h"]))
        z = np.array([(10 + 3 * i + 2 * j + 7 * b) for b in range(r["bands"])], float)
    else:
        z = rng.randint(1, 200, shape).astype(float)
    nd = None
    if r["nodata"]:
        nd = 255 if r["dtype"] == "uint8" else float("nan") if r["nodata"] == "nan" and r["dtype"].startswith("float") else -9999
        z[rng.uniform(size=shape) < (0.08 if r["nodata"] == "some" else 0.4)] = nd
    return z.astype(r["dtype"]), nd


def affine_of(r):
    return Affine.translation(r["ox"], r["oy"]) * Affine.rotation(r["rot"]) * Affine.scale(r["dx"], r["dy"])


def is_nodata(z, nd):
    if nd is None:
        return np.zeros(np.shape(z), bool)
    return np.isnan(z) if nd != nd else np.asarray(z) == nd


class Dem:
    def __init__(self, r):
        self.r = r
        self.z, self.nd = data_of(r)
        self.T = affine_of(r)
        self.mem = MemoryFile()
        with self.mem.open(driver="GTiff", height=r["h"], width=r["w"], count=r["bands"], dtype=r["dtype"], transform=self.T, nodata=self.nd) as d:
            d.write(self.z)

    def __enter__(self):
        self.d = self.mem.open()
        return self

    def __exit__(self, *a):
        self.d.close()
        self.mem.close()


frac = st.one_of(st.floats(0.02, 0.98), st.integers(1, 7).map(lambda k: k / 8))
pixel = st.tuples(frac, frac)
edge = st.one_of(frac, st.floats(0, 1), st.sampled_from([0.0, 1.0]))
on_dem = st.one_of(pixel, st.tuples(edge, edge))           # right up to the edges
about = st.floats(-0.4, 1.4)
around = st.one_of(pixel, pixel, st.tuples(about, about))   # areas may reach beyond the DEM


def world(dem, ps):
    return [dem.T * (x * dem.r["w"], y * dem.r["h"]) for x, y in ps]


def clear_pixels(dem, polys_px):
    """(inside, undecided) masks over pixel centres, from polygons in pixel space."""
    h, w = dem.r["h"], dem.r["w"]
    inside, vague = np.zeros((h, w), bool), np.zeros((h, w), bool)
    for i in range(h):
        for j in range(w):
            p = Point(j + 0.5, i + 0.5)
            for q in polys_px:
                if q.boundary.distance(p) < 1e-6:
                    vague[i, j] = True
                elif q.contains(p):
                    inside[i, j] = True
    return inside, vague


def polygon(ps, hole):
    q = Polygon(ps)
    if not q.is_valid or q.area < 1e-9:
        q = Polygon(ps).convex_hull
    if hole and q.geom_type == "Polygon":
        c = q.representative_point()
        r = c.distance(q.exterior) * 0.6
        if r > 1e-3:
            q = Polygon(q.exterior.coords, [[(c.x + r * math.cos(t), c.y + r * math.sin(t)) for t in (0, 2.1, 4.2)]])
    return q


@check.law(st.fixed_dictionaries(dict(r=rasters(), polys=st.lists(st.lists(around, min_size=3, max_size=6), min_size=1, max_size=2), hole=st.booleans(),
                                      band=st.integers(0, 2), ask=st.booleans(), via=st.sampled_from(["area", "shape"]))), quick=1600, thorough=30000)
def areas(case):
    r = case["r"]
    with Dem(r) as dem:
        px = [polygon([(x * r["w"], y * r["h"]) for x, y in ps], case["hole"]) for ps in case["polys"]]
        px = [q for q in px if q.geom_type == "Polygon" and q.area > 1e-6]
        if len(px) == 2 and px[0].intersects(px[1]):
            px = px[:1]
        if not px:
            raise Skip("no polygon")

        def to_world(q):
            return Polygon([dem.T * c for c in q.exterior.coords], [[dem.T * c for c in ring.coords] for ring in q.interiors])
        geom = to_world(px[0]) if len(px) == 1 else MultiPolygon([to_world(q) for q in px])
        inside, vague = clear_pixels(dem, px)
        if not inside.any():
            raise Skip("no pixel inside")
        kw = {}
        b = 0
        if case["ask"]:
            b = case["band"] % r["bands"]
            kw["band"] = b + 1
        f = D.extract_area if case["via"] == "area" else D.extract_shape
        got = np.asarray(f(geom, dem.d, **kw), float)
        expect(got.ndim == 2 and got.shape[1] == 3, "coordinates have shape {}", got.shape)
        seen = np.zeros_like(inside)
        for x, y, z in got:
            u, v = ~dem.T * (x, y)
            j, i = int(math.floor(u)), int(math.floor(v))
            expect(abs(u - j - 0.5) < 1e-6 and abs(v - i - 0.5) < 1e-6, "point ({}, {}) is not at a pixel centre (pixel {}, {})", x, y, u, v)
            expect(0 <= i < r["h"] and 0 <= j < r["w"], "point outside the DEM")
            expect(inside[i, j] or vague[i, j], "pixel {} {} is outside the area", i, j)
            expect(not seen[i, j], "pixel {} {} appears twice", i, j)
            seen[i, j] = True
            expect(z == float(dem.z[b, i, j]), "elevation {} at pixel {} {}, the DEM has {}", z, i, j, dem.z[b, i, j])
            expect(not is_nodata(z, dem.nd), "nodata pixel {} {} extracted", i, j)
        want = inside & ~vague
        if dem.nd is not None:
            want &= ~is_nodata(dem.z[b], dem.nd)
        miss = np.argwhere(want & ~seen)
        expect(len(miss) == 0, "pixels inside the area are missing: {}", miss[:4].tolist())
    return [r["kind"], case["via"], r["dtype"]] + (["nodata"] if r["nodata"] else []) + (["multi"] if len(px) > 1 else []), len(got) > 2


side = st.one_of(st.sampled_from([255, 256, 257, 511, 512, 513]), st.integers(100, 600))


@check.law(st.fixed_dictionaries(dict(w=side, h=side, mx=st.integers(0, 5), my=st.integers(0, 5), nx=st.integers(0, 5), ny=st.integers(0, 5), hole=st.booleans(),
                                      dtype=st.sampled_from(["float32", "int16"]), seed=g.seeds)), quick=60, thorough=1500)
def large_areas(case):
    """Boxes of hundreds of pixels a side, corners on half-pixel fractions: exactly the pixels inside."""
    w, h = case["w"] + case["mx"] + case["nx"], case["h"] + case["my"] + case["ny"]
    z = np.random.RandomState(case["seed"]).randint(1, 30000, (h, w)).astype(case["dtype"])
    T = Affine.translation(1000.0, 2000.0) * Affine.scale(2.0, -2.0)
    x0, y0, x1, y1 = case["mx"] + 0.25, case["my"] + 0.25, case["mx"] + case["w"] - 0.25, case["my"] + case["h"] - 0.25
    box = [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]
    want = np.zeros((h, w), bool)
    want[case["my"]:case["my"] + case["h"], case["mx"]:case["mx"] + case["w"]] = True
    holes = []
    if case["hole"]:
        a, b = case["mx"] + case["w"] // 3, case["my"] + case["h"] // 3
        holes = [[T * p for p in [(a + 0.25, b + 0.25), (a + 9.75, b + 0.25), (a + 9.75, b + 9.75), (a + 0.25, b + 9.75)]]]
        want[b:b + 10, a:a + 10] = False
    with MemoryFile() as mem:
        with mem.open(driver="GTiff", height=h, width=w, count=1, dtype=case["dtype"], transform=T) as d:
            d.write(z, 1)
        with mem.open() as d:
            got = np.asarray(D.extract_area(Polygon([T * p for p in box], holes), d), float)
    expect(got.ndim == 2 and got.shape[1] == 3, "coordinates have shape {}", got.shape)
    expect(len(got) == want.sum(), "{} points extracted of {} pixels", len(got), want.sum())
    j, i = (got[:, 0] - 1000) / 2 - 0.5, (got[:, 1] - 2000) / -2 - 0.5
    ji, ii = np.round(j).astype(int), np.round(i).astype(int)
    expect(max(np.abs(j - ji).max(), np.abs(i - ii).max()) < 1e-6, "points are not at pixel centres")
    expect(ji.min() >= 0 and ii.min() >= 0 and ji.max() < w and ii.max() < h, "points outside the DEM")
    seen = np.zeros_like(want)
    seen[ii, ji] = True
    expect(np.array_equal(seen, want), "other pixels than those inside the area")
    expect(np.array_equal(z[ii, ji].astype(float), got[:, 2]), "elevations are not those of the DEM")
    return ["multiple of 256" if case["w"] % 256 == 0 or case["h"] % 256 == 0 else "other"], True


def bilinear(z, bad, u, v):
    """Value at pixel position (u, v) (centres at +0.5), edge values extended.
    Second result: whether nodata could take part."""
    h, w = z.shape
    a, b = min(max(u - 0.5, 0.0), w - 1.0), min(max(v - 0.5, 0.0), h - 1.0)
    j, i = min(int(math.floor(a)), w - 2), min(int(math.floor(b)), h - 2)
    s, t = a - j, b - i
    # next to a grid line, rounding decides which pixels take part with no weight
    e = 1e-6
    clean = not bad[max(int(math.ceil(b - 1 - e)), 0):int(math.floor(b + 1 + e)) + 1, max(int(math.ceil(a - 1 - e)), 0):int(math.floor(a + 1 + e)) + 1].any()
    val, touched = 0.0, False
    for di, wi in ((0, 1 - t), (1, t)):
        for dj, wj in ((0, 1 - s), (1, s)):
            if bad[i + di, j + dj]:
                if wi * wj > 1e-9:
                    touched = True
            else:
                val += wi * wj * float(z[i + di, j + dj])
    return val, clean, touched


@check.law(st.fixed_dictionaries(dict(r=rasters(), lines=st.lists(st.lists(on_dem, min_size=2, max_size=5), min_size=1, max_size=2), sub=st.sampled_from([None, None, "default", 0.3, 2.5]),
                                      kind=st.sampled_from(["line", "line", "point", "multi"]), zdim=st.booleans(), band=st.integers(0, 2), ask=st.booleans(),
                                      via=st.sampled_from(["line", "shape"]), plain=st.sampled_from([None, None, None, True, False]))), quick=1600, thorough=30000)
def lines(case):
    r = case["r"]
    with Dem(r) as dem:
        L = [world(dem, ps) for ps in case["lines"]]
        if any(len(set(l)) < 2 or max(math.hypot(x - ps[0][0], y - ps[0][1]) for x, y in ps) < 1e-6 for l, ps in zip(L, case["lines"])):
            raise Skip("degenerate line")
        if case["zdim"]:
            L = [[(x, y, 5.0) for x, y in l] for l in L]
        if case["kind"] == "point":
            geom, parts = Point(L[0][0]), [L[0][:1]]
        elif case["kind"] == "multi" and len(L) > 1:
            geom, parts = MultiLineString(L), L
        else:
            geom, parts = LineString(L[0]), L[:1]
        kw = {}
        if case["sub"] != "default":
            kw["subdivide"] = case["sub"]
        step = {"default": 1.0}.get(case["sub"], case["sub"])
        b = 0
        if case["ask"]:
            b = case["band"] % r["bands"]
            kw["band"] = b + 1
        if case["plain"] is not None:
            kw["masked"] = not case["plain"]      # passed on to rasterio; True is the default
        before = geom.wkt
        f = D.extract_line if case["via"] == "line" else D.extract_shape
        got = np.asarray(f(geom, dem.d, **kw), float)
        expect(geom.wkt == before, "the geometry was changed")
        expect(got.ndim == 2 and got.shape[1] == 3, "coordinates have shape {}", got.shape)
        z = dem.z[b]
        bad = is_nodata(z, dem.nd)
        pos = []
        for x, y, zz in got:
            u, v = ~dem.T * (x, y)
            pos.append((u, v))
            want, clean, touched = bilinear(z, bad, u, v)
            if clean:
                expect(abs(zz - want) <= 1e-6 * (1 + np.nanmax(np.abs(z.astype(float)))), "elevation {} at pixel position ({}, {}), interpolated {}", zz, u, v, want)
            elif touched and not case["plain"]:
                expect(case["via"] == "line" and not np.isfinite(zz), "nodata was mixed into elevation {} at ({}, {})", zz, u, v)
        # every vertex is there, in order, unless nodata removed it
        verts = [tuple(p[:2]) for part in parts for p in part]
        k = 0
        for q in verts:
            u, v = ~dem.T * q
            _, clean, touched = bilinear(z, bad, u, v)
            if case["via"] == "shape" and not clean:
                continue
            while k < len(got) and math.hypot(pos[k][0] - u, pos[k][1] - v) > 1e-6:
                k += 1
            expect(k < len(got), "vertex {} is missing", q)
        if case["sub"] is None and (case["via"] == "line" or not bad.any()):
            expect(len(got) == len(verts), "{} points for {} vertices", len(got), len(verts))
        # subdivisions stay on the line and are no further apart than asked
        if case["sub"] is not None and case["kind"] != "point":
            ppx = [LineString([~dem.T * p[:2] for p in part]) for part in parts]
            for u, v in pos:
                expect(min(l.distance(Point(u, v)) for l in ppx) < 1e-6, "subdivision ({}, {}) is off the line", u, v)
            if not bad.any() and len(parts) == 1:
                for a, c in zip(pos, pos[1:]):
                    expect(math.hypot(a[0] - c[0], a[1] - c[1]) <= step * (1 + 1e-9) + 1e-6, "points {} apart, interval {}", math.hypot(a[0] - c[0], a[1] - c[1]), step)
    return [r["kind"], geom.geom_type, "subdivide:%s" % case["sub"]] + (["nodata"] if r["nodata"] else []) + (["unmasked"] if case["plain"] else []), len(got) > 2


@check.law(st.fixed_dictionaries(dict(h=st.integers(2, 9), w=st.integers(2, 9), seed=g.seeds, pts=st.lists(pixel, min_size=2, max_size=6), masked=st.booleans(), dtype=st.sampled_from(["float64", "float64", "float32", "int16", "int32", "uint8"]),
                                      zdim=st.booleans(), kind=st.sampled_from(["Point", "LineString", "MultiLineString"]))), quick=2500, thorough=50000)
def interpolation(case):
    h, w = case["h"], case["w"]
    z = np.random.RandomState(case["seed"]).uniform(-100, 100, (h, w))
    z = (z + 100 if case["dtype"] == "uint8" else z).astype(case["dtype"])
    arr = np.ma.masked_array(z.copy(), mask=np.zeros((h, w), bool)) if case["masked"] else z.copy()
    ps = [(x * w, y * h) for x, y in case["pts"]]
    if len(set(ps)) < 2:
        raise Skip("degenerate line")
    full = [p + (1.0,) for p in ps] if case["zdim"] else ps
    geom = {"Point": lambda: Point(full[0]), "LineString": lambda: LineString(full), "MultiLineString": lambda: MultiLineString([full, full[::-1]])}[case["kind"]]()
    bad = np.zeros((h, w), bool)
    for f, name in ((I.nearest, "nearest"), (I.bilinear, "bilinear"), (I.cubic, "cubic")):
        out = f(arr, geom)
        expect(out.geom_type == case["kind"], "{} turned a {} into a {}", name, case["kind"], out.geom_type)
        cs = D.coords_array(out)
        exp = ps[:1] if case["kind"] == "Point" else ps if case["kind"] == "LineString" else ps + ps[::-1]
        expect(cs.shape == (len(exp), 3) and np.abs(cs[:, :2] - np.array(exp)).max() < 1e-9, "{} moved the points", name)
        for (u, v), val in zip(exp, cs[:, 2]):
            if name == "bilinear":
                want = bilinear(z, bad, u, v)[0]
                expect(abs(val - want) < 1e-8 * (1 + abs(want)), "bilinear value {} at ({}, {}), expected {}", val, u, v, want)
            elif name == "nearest":
                if min(abs(u - round(u)), abs(v - round(v))) > 1e-6:
                    want = z[min(int(v), h - 1), min(int(u), w - 1)]
                    expect(abs(val - want) < 1e-9, "nearest value {} at ({}, {}), expected {}", val, u, v, want)
    # at pixel centres every method returns the pixel
    i, j = case["seed"] % h, (case["seed"] // 7) % w
    for f in (I.nearest, I.bilinear, I.cubic):
        val = f(arr, Point(j + 0.5, i + 0.5)).z
        expect(abs(val - z[i, j]) < 1e-5, "value {} at the centre of a pixel holding {}", val, z[i, j])
    expect(np.array_equal(np.asarray(arr), z), "the raster was changed")
    return [case["kind"], case["dtype"]] + (["masked"] if case["masked"] else []), True


@check.law(st.fixed_dictionaries(dict(h=st.integers(1, 8), w=st.integers(1, 8), seed=g.seeds, p=st.floats(0.05, 0.9), n=st.integers(0, 12), cols=st.integers(2, 4))), quick=3000, thorough=60000)
def masks(case):
    rng = np.random.RandomState(case["seed"])
    m = rng.uniform(size=(case["h"], case["w"])) < case["p"]
    if m.any():
        (yo, xo), sub = D.offset_mask(m)
        ys, xs = np.nonzero(m)
        expect((int(yo), int(xo)) == (ys.min(), xs.min()), "offset {} {} of a mask starting at {} {}", yo, xo, ys.min(), xs.min())
        expect(np.array_equal(sub, m[ys.min():ys.max() + 1, xs.min():xs.max() + 1]), "trimmed mask {}", np.asarray(sub).astype(int).tolist())
    a = rng.uniform(size=(case["n"], case["cols"]))
    a[rng.uniform(size=a.shape) < case["p"] * 0.4] = np.nan
    got = np.asarray(D.clean_coordinates(a.copy(), silent=True))
    want = np.array([r for r in a if not np.isnan(r).any()]).reshape(-1, case["cols"])
    expect(np.array_equal(got, want), "cleaning kept {} of {} rows, expected {}", len(got), len(a), len(want))
    return [], m.any() and not m.all()
