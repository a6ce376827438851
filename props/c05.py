"""Distance and ring neighborhoods."""
import itertools

from symx.api import AND, IMPLIES, NOT, OR, harness, round_sqrt, sqrt_least
from props.util import LOCATION, SITE_ID, cart, distinct, grid_point, lattice, near

from pylattica.core.neighborhood_builders import AnnularNeighborhoodBuilder, DistanceNeighborhoodBuilder
from pylattica.core.periodic_structure import PeriodicStructure
from pylattica.core.structure_builder import StructureBuilder


def _sqs(a, b, vecs, per, reach):
    out = []
    for s in itertools.product(*[range(-reach, reach + 1) if p else (0,) for p in per]):
        out.append(sum((x - y + sum(n * v[j] for n, v in zip(s, vecs))) ** 2 for j, (x, y) in enumerate(zip(a, b))))
    return out


def _in_range(ctx, nbs, other, sqs, lo, hi, what):
    """other is among nbs exactly when lo < sqrt(min sqs) < hi (rounding aside), with that weight."""
    m = sqrt_least(sqs)
    mine = [w for i, w in nbs if i == other]
    ctx.check(len(mine) <= 1, f"{what}: listed once")
    if mine:
        ctx.check(m < hi + 0.0006, f"{what}: a neighbor is closer than the cutoff")
        ctx.check(m != hi, f"{what}: a site at the cutoff is no neighbor")
        if lo is not None:
            ctx.check(m > lo - 0.0006, f"{what}: a neighbor is outside the inner radius")
            ctx.check(m != lo, f"{what}: a site at the inner radius is no neighbor")
        ctx.check(round_sqrt(mine[0], sqs), f"{what}: weighted by its distance")
    else:
        far = m > hi - 0.0006
        ctx.check(far if lo is None else OR(far, m < lo + 0.0006), f"{what}: every site in range is a neighbor")


def _decoy(vecs, per, dist):
    """Two sites this far from each other in a cell a hundred times as large."""
    from pylattica.core.lattice import Lattice

    s = PeriodicStructure(Lattice([tuple(100.0 * x for x in v) for v in vecs], tuple(per)))
    s.add_site("A", tuple(0.0 for _ in vecs))
    s.add_site("A", tuple(float(dist) if i == 0 else 0.0 for i in range(len(vecs))))
    return s


CUTS = [(None, 1), (None, 1.01), (None, 1.5), (None, 2.3), (None, 5), (0.9, 2.1), (1, 2), (1.2, 1.3)]


@harness("C05", quick=["line", "rect-half", "skew", "lower"],
         thorough=["line-open", "square", "rect-open", "skew-half", "honeycomb", "slab"],
         bounds="two sites, one or (in 1-d) both anywhere on the 1/4 grid of the cell; eight cutoffs or radius pairs, the builder having served other structures")
def placement(ctx, name):
    lat, vecs, per = lattice(name)
    d = len(vecs)
    ks = [[ctx.int(f"a{i}", 0, 3) for i in range(d)], [ctx.int("b", 0, 3)] if d == 1 else [1, 3, 0][:d]]
    ctx.assume(OR([x != y for x, y in zip(*ks)]))
    s = PeriodicStructure(lat)
    pts = [cart(vecs, [ctx.scaled(x, 4) for x in k]) for k in ks]
    for p in pts:
        s.add_site("A", p)
    lo, hi = ctx.pick("cut", CUTS)
    b = DistanceNeighborhoodBuilder(hi) if lo is None else AnnularNeighborhoodBuilder(lo, hi)
    # a builder serves any number of structures
    for other in (_decoy(vecs, per, 0.01), _decoy(vecs, per, 20)):
        b.get(other)
    nb = b.get(s)
    b.get(_decoy(vecs, per, 0.01))
    reach = 2 if name != "lower" else 2
    sqs = _sqs(pts[0], pts[1], vecs, per, reach)
    for i in (0, 1):
        nbs = nb.neighbors_of(i, include_weights=True)
        ctx.check(len([1 for j, _ in nbs if j == i]) == 0, "no site is its own neighbor")
        _in_range(ctx, nbs, 1 - i, sqs, lo, hi, "pair")
        ctx.check(sorted(nb.neighbors_of(i)) == sorted(j for j, _ in nbs), "with and without weights alike")
    ctx.check((1 in nb.neighbors_of(0)) == (0 in nb.neighbors_of(1)), "symmetric")


STRUCTS = {
    "grid2": ("square", (2, 2), {"A": [(0, 0)]}),
    "grid3": ("square", (3, 3), {"A": [(0, 0)]}),
    "open": ("rect-open", (2, 2), {"A": [(0, 0)], "B": [(1, 1)]}),
    "half": ("rect-half", (2, 2), {"A": [(0, 0)], "B": [(0.5, 1.5)]}),
    "skew": ("skew", (2, 2), {"A": [(0, 0)], "B": [(1, 0.5)]}),
    "lower": ("lower", (1, 2), {"A": [(0, 0), (1, 1)], "B": [(2, 0)]}),
    "hex": ("honeycomb", (3, 3), {"A": [(0, 0)]}),
    "slab": ("slab", (2, 1, 1), {"A": [(0, 0, 0)], "B": [(1, 1, 1)]}),
    "line": ("line", (4,), {"A": [(0,)], "B": [(0.75,)]}),
    "wide": ("square", (3, 5), {"A": [(0, 0)]}),
    "tall": ("square", (5, 3), {"A": [(0, 0)]}),
    "long": ("long", (1, 3), {"A": [(0, 0)], "B": [(1, 0.5)]}),
    "grid4": ("square", (4, 4), {"A": [(0, 0)]}),
    "cube": ("cube", (2, 2, 2), {"A": [(0, 0, 0)], "B": [(0.5, 0.5, 0.5)]}),
}


@harness("C05", quick=["grid3", "open", "half", "wide", "tall", "long", "skew", "lower", "hex", "slab", "line"], thorough=["grid4", "cube"],
         bounds="the listed structures of up to 16 sites; every cutoff and radius up to 6 on a 1/1000 grid")
def radii(ctx, name):
    base, size, motif = STRUCTS[name]
    lat, vecs, per = lattice(base)
    s = StructureBuilder(lat, motif).build(size)
    vecs = [[x * n for x in v] for v, n in zip(vecs, size)]
    hi = ctx.coord("hi", 0, 6, 1000)
    ring = ctx.bool("ring")
    lo = None
    if ring:
        lo = ctx.coord("lo", 0, 6, 1000)
        b = AnnularNeighborhoodBuilder(lo, hi)
    else:
        b = DistanceNeighborhoodBuilder(hi)
    cls = ctx.pick("class", [None] + list(motif))
    nb = b.get(s) if cls is None else b.get(s, site_class=cls)
    ids = s.site_ids
    # the first site of each class stands for all: the structure repeats
    for i in [0] + [i for i in ids if s.site_class(i) != s.site_class(0)][:1]:
        nbs = nb.neighbors_of(i, include_weights=True)
        if cls is not None and s.site_class(i) != cls:
            ctx.check(len(nbs) == 0, "only sites of the asked class get neighbors")
            continue
        a = [float(x) for x in s.site_location(i)]
        ctx.check(all(j != i for j, _ in nbs), "no site is its own neighbor")
        for j in ids:
            if j != i:
                sqs = _sqs(a, [float(x) for x in s.site_location(j)], vecs, per, 4 if name == "long" else 2)
                _in_range(ctx, nbs, j, sqs, lo, hi, f"{i}-{j}")
                if cls is None:
                    ctx.check((j in nb.neighbors_of(i)) == (i in nb.neighbors_of(j)), "symmetric")


@harness("C05", quick=[3, 4], thorough=[5, 6], bounds="honeycombs of 3..6 cells a side, every cell")
def honeycomb(ctx, n):
    from pylattica.structures.honeycomb import HoneycombNeighborhoodBuilder, HoneycombTilingBuilder

    s = HoneycombTilingBuilder().build(n)
    nb = HoneycombNeighborhoodBuilder().get(s)
    r3 = 3 ** 0.5 / 2
    i, j = ctx.size("i", 0, n - 1), ctx.size("j", 0, n - 1)

    def at(i, j):
        f = (i % n + 0.5, j % n + 0.5)
        return s.site_at((f[0] + f[1] / 2, f[1] * r3))[SITE_ID]

    want = {at(i + a, j + b) for a, b in [(1, 0), (-1, 0), (0, 1), (0, -1), (1, -1), (-1, 1)]}
    got = nb.neighbors_of(at(i, j), include_weights=True)
    ctx.check(len(want) == 6, "six different cells around every cell")
    ctx.check(sorted(k for k, _ in got) == sorted(want), "the six adjacent cells")
    for _, w in got:
        ctx.check(near(float(w), 1, 0.001), "one cell away")


@harness("C05", quick=[(12, 9, (True, False), None), (12, 9, (True, False), 1.2), (3, 38, (True, True), None)],
         thorough=[(12, 11, (True, True), 1.2), (15, 9, (True, True), None), (20, 16, (True, True), 1.2)],
         bounds="grids of 108 and 114 sites (thorough 320), every cutoff and pair of radii from 0.5 to 2.5 on a 1/1000 grid but those at a site's distance; every site")
def large(ctx, cfg):
    from pylattica.core.lattice import Lattice

    w, h, per, lo = cfg
    s = StructureBuilder(Lattice([(1, 0), (0, 1)], per), {"A": [(0, 0)]}).build((w, h))
    hi = ctx.coord("hi", 0.5, 2.5, 1000)
    for d2 in (1, 2, 4, 5):
        ctx.assume(OR(hi > d2 ** 0.5 + 0.001, hi < d2 ** 0.5 - 0.001))
    nb = (DistanceNeighborhoodBuilder(hi) if lo is None else AnnularNeighborhoodBuilder(lo, hi)).get(s)
    at = {tuple(int(round(float(x))) for x in s.site_location(i)): i for i in s.site_ids}
    ctx.check(len(at) == w * h, "the whole grid")
    inside = {d2: bool(hi * hi > d2) and (lo is None or d2 > lo * lo) for d2 in (1, 2, 4, 5)}
    for (x, y), i in at.items():
        want = {}
        for dx in range(-2, 3):
            for dy in range(-2, 3):
                d2 = dx * dx + dy * dy
                n = ((x + dx) % w if per[0] else x + dx, (y + dy) % h if per[1] else y + dy)
                j = at.get(n)
                if d2 in inside and inside[d2] and j is not None and j != i:
                    want[j] = min(want.get(j, 9), d2)
        if lo is not None:
            # the nearest image counts
            want = {j: d2 for j, d2 in want.items() if not _closer(i, j, s, w, h, per, lo)}
        got = nb.neighbors_of(i, include_weights=True)
        ctx.check(sorted(j for j, _ in got) == sorted(want), "exactly the sites in range")
        ctx.check(AND([near(float(v), want[j] ** 0.5, 0.001) for j, v in got]), "weighted by distance")


def _closer(i, j, s, w, h, per, lo):
    a, b = s.site_location(i), s.site_location(j)
    ds = []
    for k, n in ((0, w), (1, h)):
        d = abs(float(a[k]) - float(b[k]))
        ds.append(min(d, n - d) if per[k] else d)
    return sum(d * d for d in ds) <= lo * lo
