"""Structures built by repeating a cell hold exactly the motif, once per cell."""
from symx.api import AND, NOT, OR, harness
from props.util import LOCATION, SITE_CLASS, SITE_ID, cart, congruent, grid_point, lattice, near, nearv

from pylattica.core.periodic_structure import PeriodicStructure
from pylattica.core.structure_builder import StructureBuilder


def _cells(size):
    out = [()]
    for n in size:
        out = [c + (i,) for c in out for i in range(n)]
    return out


def _check(ctx, s, vecs, per, size, motif, den):
    """motif: list of (class, fractional grid point)."""
    cells = _cells(size)
    n = len(cells) * len(motif)
    ctx.check(len(s.site_ids) == n, "one site per cell and motif entry")
    ctx.check(list(s.site_ids) == list(range(n)), "identifiers run from 0")
    ctx.check(len(s.sites()) == n, "one site per cell and motif entry")
    ctx.check(s.dim == len(vecs), "dimension")
    for i in range(len(vecs)):
        ctx.check(nearv([float(x) for x in s.lattice.vecs[i]], [x * size[i] for x in vecs[i]]),
                  "the structure's cell is the repeated cell")
    ctx.check(tuple(bool(p) for p in s.lattice.periodic) == tuple(per), "periodicity is kept")
    seen = []
    for cell in cells:
        for cls, k in motif:
            f = [ctx.scaled(a + den * b, den) for a, b in zip(k, cell)]
            got = s.site_at(cart(vecs, f))
            ctx.check(got is not None, "a site at every cell's copy of every motif entry")
            ctx.check(got[SITE_CLASS] == cls, "of the motif entry's class")
            ctx.check(got[SITE_ID] not in seen, "and a different one each time")
            seen.append(got[SITE_ID])
    for i in s.site_ids:
        g = s.lattice.get_fractional_coords(s.site_location(i))
        for j in range(len(vecs)):
            if per[j]:
                ctx.check(AND(g[j] > -0.01, g[j] < 1.01), "sites lie in the structure's cell")


CASES = [("line", (3,)), ("square", (2, 2)), ("rect", (1, 2)), ("rect-half", (2, 2)), ("rect-open", (2, 1)),
         ("skew", (2, 2)), ("lower", (2, 2)), ("honeycomb", (2, 1)), ("slab", (1, 2, 1))]
MORE = [("honeycomb", (2, 2)), ("line", (5,)), ("skew-half", (2, 2)), ("square", (3, 3)), ("lower", (3, 2)), ("sheared", (2, 2)),
        ("thirds", (2, 2)), ("triclinic", (2, 2, 1)), ("cube", (2, 2, 2)), ("honeycomb", (3, 3)),
        ("tri-rod", (1, 1, 2))]


@harness("C03", quick=[(n, s, m) for n, s in CASES for m in ("cart", "frac") if (n, m) != ("honeycomb", "frac")],
         thorough=[(n, s, m) for n, s in MORE for m in ("cart", "frac")],
         bounds="repetitions as listed; two classes, two motif entries anywhere on the cell's 1/8 grid (1/4 for the "
                "hexagonal cell) within one cell of the origin cell")
def motif(ctx, cfg):
    name, size, mode = cfg
    den = 4 if name in ("honeycomb", "thirds") else 8
    lat, vecs, per = lattice(name)
    d = len(vecs)
    a = grid_point(ctx, "a", d, -1, 2, den)
    b = grid_point(ctx, "b", d, -1, 2, den)
    # two entries that are images of each other in the repeated structure cannot both be placed
    ctx.assume(NOT(AND([(x - y) % den == 0 for x, y in zip(a, b)])))
    fa, fb = ([ctx.scaled(x, den) for x in k] for k in (a, b))
    if mode == "cart":
        entries = {"A": [cart(vecs, fa)], "B": [cart(vecs, fb)]}
    else:
        entries = {"A": [tuple(fa)], "B": [tuple(fb)]}
    builder = StructureBuilder(lat, entries)
    builder.frac_coords = mode == "frac"
    s = builder.build(size)
    _check(ctx, s, vecs, per, size, [("A", a), ("B", b)], den)
    ctx.observe([s.site_class(i) for i in s.site_ids])
    # the cell the structure was built from is reusable
    ctx.check(nearv([float(x) for v in lat.vecs for x in v], [x for v in vecs for x in v]), "the lattice is unchanged")


@harness("C03", quick=[("square", (2, 2)), ("rect-half", (2, 1)), ("skew", (1, 2))], thorough=[("slab", (2, 1, 1)), ("lower", (2, 2))],
         bounds="a class with three entries of which two are 1/128 to 1/8 of a cell apart along one direction, in either order, of cells as listed")
def crowded(ctx, cfg):
    name, size = cfg
    lat, vecs, per = lattice(name)
    d = len(vecs)
    den = 1024
    a = [ctx.pick(f"a{i}", [0, 300]) for i in range(d)]
    along = ctx.size("along", 0, d - 1)
    b = list(a)
    b[along] = a[along] + ctx.int("by", 8, 128)
    c = [x + 500 for x in a]
    entries = [a, b, c] if ctx.pick("order", [True, False]) else [b, c, a]
    pts = [tuple(ctx.scaled(x, den) for x in k) for k in entries]
    frac = ctx.pick("frac", [True, False])
    builder = StructureBuilder(lat, {"A": pts if frac else [cart(vecs, p) for p in pts]})
    builder.frac_coords = frac
    _check(ctx, builder.build(size), vecs, per, size, [("A", k) for k in entries], den)


@harness("C03", quick=["square", "rect-half"], thorough=["skew", "honeycomb", "slab"],
         bounds="1 class with 2 entries, sizes 1..3 as one number, or a list motif")
def sizes(ctx, name):
    den = 4
    lat, vecs, per = lattice(name)
    d = len(vecs)
    n = ctx.size("n", 1, 3 if d < 3 else 2)
    a = grid_point(ctx, "a", d, 0, 1, den)
    for x in a:
        ctx.assume(x < den)
    b = [(a[0] + 1) % den] + a[1:]
    pts = [tuple(ctx.scaled(x, den) for x in k) for k in (a, b)]
    as_list = ctx.bool("list motif")
    if as_list:
        s = PeriodicStructure.build_from(lat, [n] * d, pts, frac_coords=True)
        cls = s.site_class(0)
        ctx.check(len(s.all_site_classes()) == 1, "a motif without classes has a single class")
    else:
        bld = StructureBuilder(lat, {"X": pts})
        bld.frac_coords = True
        s, cls = bld.build(n), "X"
    _check(ctx, s, vecs, per, (n,) * d, [(cls, a), (cls, b)], den)


@harness("C03", quick=["square", "skew"], thorough=["slab", "honeycomb"],
         bounds="one builder (or motif and lattice) used up to three times, for sizes 1..2, a structure extended or the "
                "motif changed in between")
def again(ctx, name):
    lat, vecs, per = lattice(name)
    d = len(vecs)
    motif = {"A": [tuple(0.0 for _ in vecs)]}
    builder = StructureBuilder(lat, motif)
    builder.frac_coords = True
    a = grid_point(ctx, "a", d, 0, 1, 4)
    for x in a:
        ctx.assume(x < 4)
    ctx.assume(OR([x != 0 for x in a]))
    n, m = ctx.size("n", 1, 2), ctx.size("m", 1, 2)
    s = builder.build(n)
    _check(ctx, s, vecs, per, (n,) * d, [("A", [0] * d)], 4)
    pt = tuple(ctx.scaled(x, 4) for x in a)
    what = ctx.pick("between", ["extend", "motif", "mode", "builder"])
    want = [("A", [0] * d)]
    if what == "extend":
        s.add_site("B", cart(vecs, pt))
    elif what == "motif":
        builder.motif = {"A": motif["A"], "B": [pt]}
        want = [("A", [0] * d), ("B", a)]
    elif what == "mode":
        motif["A"][0] = cart(vecs, pt)
        builder.frac_coords = False
        want = [("A", a)]
    else:
        builder = StructureBuilder(lat, {"C": [pt]})
        builder.frac_coords = True
        want = [("C", a)]
    t = builder.build(m)
    _check(ctx, t, vecs, per, (m,) * d, want, 4)
    if what == "extend":
        ctx.check(len(s.sites()) == n ** d + 1, "each structure keeps its own sites")
        _check(ctx, builder.build((n,) * d), vecs, per, (n,) * d, want, 4)


@harness("C03", quick=["rect-open", "rect-half"], thorough=["square", "skew"],
         bounds="motif entries given as tuples, lists or arrays, up to a cell below or above, built from twice")
def given_motif(ctx, name):
    import numpy as np

    lat, vecs, per = lattice(name)
    d, den = len(vecs), 4
    a = grid_point(ctx, "a", d, -1, 2, den)
    b = [1] * d
    ctx.assume(NOT(AND([(x - y) % den == 0 for x, y in zip(a, b)])))
    kind = ctx.pick("as", [tuple, list, np.array])
    frac = ctx.pick("frac", [True, False])
    given = [[ctx.scaled(x, den) * 1.0 for x in k] for k in (a, b)]
    if not frac:
        given = [[x * 1.0 for x in cart(vecs, g)] for g in given]
    motif = {"A": [kind(given[0])], "B": [kind(given[1])]}
    builder = StructureBuilder(lat, motif)
    builder.frac_coords = frac
    size = (2, 1) + (1,) * (d - 2)
    for _ in range(2):
        _check(ctx, builder.build(size), vecs, per, size, [("A", a), ("B", b)], den)
        ctx.check(list(motif) == ["A", "B"] and len(motif["A"]) == len(motif["B"]) == 1, "the motif is left as it was")
        ctx.check(nearv(list(motif["A"][0]), given[0]), "the motif is left as it was")
        ctx.check(nearv(list(motif["B"][0]), given[1]), "the motif is left as it was")


@harness("C03", bounds="a 2-d and a 3-d builder given size tuples of length 1..4")
def wrong_size(ctx, _):
    name = ctx.pick("lattice", ["square", "cube"])
    lat, vecs, per = lattice(name)
    n = ctx.size("len", 1, 4)
    b = StructureBuilder(lat, {"A": [tuple(0 for _ in vecs)]})
    e = ctx.raises(lambda: b.build((1,) * n), ValueError)
    ctx.check((e is not None) == (n != len(vecs)), "a size of the wrong dimension is refused, and only that")


@harness("C03", quick=[("2d", 3), ("3d", 2), ("hex", 3)], thorough=[("2d", 5), ("3d", 3), ("hex", 4)],
         bounds="sizes up to 5 (2-d), 3 (3-d), 4 (honeycomb); any query up to 2 structures away")
def ready_made(ctx, cfg):
    from pylattica.structures.honeycomb import HoneycombTilingBuilder
    from pylattica.structures.square_grid import SimpleSquare2DStructureBuilder, SimpleSquare3DStructureBuilder

    kind, n = cfg
    size = ctx.size("size", 1, n)
    cls = {"2d": SimpleSquare2DStructureBuilder, "3d": SimpleSquare3DStructureBuilder,
           "hex": HoneycombTilingBuilder}[kind]
    s = cls().build(size)
    d = 3 if kind == "3d" else 2
    ctx.check(len(s.sites()) == size ** d, "one site per cell")
    ctx.check(len(s.all_site_classes()) == 1, "one class")
    # any integer translation of the first site's place finds a site
    t = [ctx.size(f"t{i}", -2, 2) if kind == "hex" else ctx.int(f"t{i}", -2 * size, 2 * size) for i in range(d)]
    if kind == "hex":
        r3 = 3 ** 0.5 / 2
        q = ((t[0] + 0.5) + (t[1] + 0.5) / 2, (t[1] + 0.5) * r3)
    else:
        q = tuple(t)
    got = s.site_at(q)
    ctx.check(got is not None, "a site in every cell, wherever it is looked up")
    if kind != "hex":
        loc = got[LOCATION]
        for i in range(d):
            ctx.check(near(loc[i], t[i] % size), "its place in the structure's own cell")
        off = tuple([t[0] + 0.5] + list(t[1:]))
        ctx.check(s.site_at(off) is None, "nothing between the cells")


@harness("C03", quick=[("rect-half", (13, 6)), ("line", (150,)), ("skew", (3, 33))], thorough=[("square", (30, 20)), ("slab", (6, 6, 4)), ("line", (1100,))],
         bounds="78 to 150 (thorough 600; 1100 in a row) cells of two classes, one entry anywhere along one direction on the cell's 1/8 grid")
def large(ctx, cfg):
    name, size = cfg
    lat, vecs, per = lattice(name)
    d, den = len(vecs), 8
    a = [ctx.int("a", 0, 7)] + [2] * (d - 1) if max(size) < 40 else [ctx.pick("a", [0, 5])] + [2] * (d - 1)
    b = [3] + [6] * (d - 1)
    ctx.assume(a[0] != 3 if d == 1 else True)
    builder = StructureBuilder(lat, {"A": [tuple(ctx.scaled(x, den) for x in a)], "B": [tuple(x / den for x in b)]})
    builder.frac_coords = True
    s = builder.build(size)
    _check(ctx, s, vecs, per, size, [("A", a), ("B", b)], den)
