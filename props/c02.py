"""Looking sites up by location, identifier and class."""
from symx.api import AND, NOT, OR, count, harness
from props.util import LOCATION, SITE_CLASS, SITE_ID, cart, congruent, grid_point, lattice, near, nearv

from pylattica.core.periodic_structure import PeriodicStructure

DEN = 8


def _den(name):
    """The grid used: its points stay clear of the halves at which coordinates are rounded to 3 decimals."""
    return 4 if name == "honeycomb" else 8


def _point(ctx, name, vecs, lo, hi, noise=False, den=DEN):
    """A grid point, as integers and as Cartesian coordinates, perhaps moved by float-sized noise."""
    d = len(vecs)
    k = grid_point(ctx, name, d, lo, hi, den)
    c = cart(vecs, [ctx.scaled(n, den) for n in k])
    if noise:
        e = ctx.coord(name + "~", -1, 1, 1000) / 10**9
        return k, tuple(x + e for x in c)
    return k, c


@harness("C02", quick=["line", "square", "rect", "rect-half", "skew", "lower", "honeycomb", "slab"],
         thorough=["line-open", "rect-open", "skew-half", "quarter", "thirds", "cube", "tri-rod", "sheared",
                   "triclinic"],
         bounds="two sites and one query anywhere on the cell's 1/8 (honeycomb: 1/4) grid within 3 cells ")
def lookup(ctx, name):
    lat, vecs, per = lattice(name)
    den = _den(name)
    s = PeriodicStructure(lat)
    ctx.check(s.site_at(tuple(0.0 for _ in vecs)) is None, "an empty structure has no site anywhere")
    k0, p0 = _point(ctx, "p", vecs, -2, 3, den=den)
    k1, p1 = _point(ctx, "q", vecs, -2, 3, den=den)
    ctx.assume(NOT(congruent(k0, k1, per, den)))
    i0 = s.add_site("A", p0)
    i1 = s.add_site("B", p1)
    ctx.check(i0 == 0 and i1 == 1, "identifiers are 0, 1, ...")
    ctx.check(list(s.site_ids) == [0, 1], "identifiers are listed in order")
    kr, r = _point(ctx, "r", vecs, -3, 3, den=den)
    is0, is1 = congruent(kr, k0, per, den), congruent(kr, k1, per, den)
    got = s.id_at(r)
    site = s.site_at(r)
    if is0:
        ctx.check(got == 0, "any image of a site's location finds it")
    elif is1:
        ctx.check(got == 1, "any image of a site's location finds it")
    else:
        ctx.check(got is None, "no site elsewhere")
        ctx.check(site is None, "no site elsewhere")
        ctx.check(s.class_at(r) is None, "no site elsewhere")
    if got is not None:
        ctx.check(site is not None and site[SITE_ID] == got, "location lookups agree")
        ctx.check(s.class_at(r) == ("A", "B")[got], "class at a location")
        ctx.check(s.get_site(got)[SITE_ID] == got, "lookup by identifier")
        g = lat.get_fractional_coords(s.site_location(got))
        k = (k0, k1)[got]
        for j in range(len(vecs)):
            if per[j]:
                # stored locations are rounded to 3 decimals
                ctx.check(near(g[j], ctx.scaled(k[j] % den, den), 0.005), "a site sits inside the cell")
            else:
                ctx.check(near(g[j], ctx.scaled(k[j], den), 0.005), "open directions are not wrapped")
    ctx.check(s.get_site(2) is None, "no site has another identifier")
    ctx.observe(got)


@harness("C02", quick=["line", "rect", "rect-half", "skew"], thorough=["square", "lower", "slab", "honeycomb"],
         bounds="a site on the 1/8 (honeycomb: 1/4) grid of the cell, looked up at an image up to 3 cells away, both moved by up "
                "to 1e-9")
def float_noise(ctx, name):
    lat, vecs, per = lattice(name)
    den = _den(name)
    s = PeriodicStructure(lat)
    k0, p0 = _point(ctx, "p", vecs, 0, 1, True, den)
    for k, p in zip(k0, per):
        if not p:
            ctx.assume(k == 0)
    s.add_site("A", p0)
    m = [ctx.int(f"m{i}", -3, 3) if p else 0 for i, p in enumerate(per)]
    e = ctx.coord("r~", -1, 1, 1000) / 10**9
    r = tuple(x + e for x in cart(vecs, [ctx.scaled(k + den * n, den) for k, n in zip(k0, m)]))
    ctx.check(s.id_at(r) == 0, "float noise does not hide a site")


@harness("C02", quick=["line", "rect-half", "skew", "honeycomb"],
         thorough=["square", "rect-open", "lower", "slab", "cube", "skew-half"],
         bounds="a site and a second one at any congruent or other grid point within 3 cells")
def duplicates(ctx, name):
    lat, vecs, per = lattice(name)
    den = _den(name)
    s = PeriodicStructure(lat)
    k0, p0 = _point(ctx, "p", vecs, -2, 3, den=den)
    s.add_site("A", p0)
    k1, p1 = _point(ctx, "q", vecs, -2, 3, den=den)
    dup = congruent(k0, k1, per, den)
    e = ctx.raises(lambda: s.add_site("B", p1), Exception)
    if dup:
        ctx.check(e is not None, "an occupied location is refused")
        ctx.check(len(s.sites()) == 1, "a refused site leaves nothing behind")
        ctx.check(list(s.site_ids) == [0], "a refused site leaves nothing behind")
        ctx.check(s.class_at(p1) == "A", "the first site stays")
        # and the structure goes on working
        far = [k0[0] + 3] + list(k0[1:])
        j = s.add_site("C", cart(vecs, [ctx.scaled(n, den) for n in far]))
        ctx.check(j == 1, "identifiers stay consecutive")
    else:
        ctx.check(e is None, "a free location is accepted")
        ctx.check(list(s.site_ids) == [0, 1], "the new site is listed")


@harness("C02", quick=["line", "rect", "rect-half", "rect-open", "slab", "skew"], thorough=["line-open", "skew-half", "lower", "needle"],
         bounds="a site and a query at any whole numbers from -6 to 6, given as integers or as floats, in tuples, lists or arrays")
def whole_numbers(ctx, name):
    import numpy as np

    lat, vecs, per = lattice(name)
    s = PeriodicStructure(lat)
    d = len(vecs)
    n = [ctx.int(f"n{i}", -6, 6) for i in range(d)]
    m = [ctx.int(f"m{i}", -6, 6) for i in range(d)]
    form = ctx.pick("form", ["ints", "list", "array", "mixed"])

    def given(xs, form):
        return {"ints": tuple, "list": list, "array": lambda v: np.array(v), "floats": lambda v: tuple(x * 1.0 for x in v),
                "mixed": lambda v: (v[0] * 1.0,) + tuple(v[1:])}[form](xs)

    ctx.check(s.add_site("A", given(n, form)) == 0, "identifiers are 0, 1, ...")
    got = s.id_at(given(m, ctx.pick("asked", ["ints", "floats", "array"])))
    # does a whole combination of the periodic vectors lie between them?
    diff = [a - b for a, b in zip(m, n)]
    if d == 2:
        (a, b), (c, e) = vecs
        q = a * e - b * c
        steps = [((diff[0] * e - diff[1] * c) * q, q * q), ((diff[1] * a - diff[0] * b) * q, q * q)]
    else:
        steps = [(x, v[i]) for i, (x, v) in enumerate(zip(diff, vecs))]
    same = AND([x % q == 0 if p else x == 0 for (x, q), p in zip(steps, per)])
    if same:
        ctx.check(got == 0, "any image of a site's location finds it")
        ctx.check(ctx.raises(lambda: s.add_site("B", given(m, form)), Exception) is not None, "an occupied location is refused")
    else:
        ctx.check(got is None, "no site elsewhere")
        ctx.check(s.add_site("B", given(m, form)) == 1, "a free location is accepted")
    ctx.check(len(s.sites()) == (1 if same else 2), "the sites added")


@harness("C02", quick=[3], thorough=[4], bounds="up to 4 sites, each of any of 3 classes, which may be empty, numbers or tuples")
def classes(ctx, n):
    lat, vecs, per = lattice("rect")
    s = PeriodicStructure(lat)
    kinds = ctx.pick("kinds", [("A", "B", "C"), ("", "A", "AA"), (0, 1, 2), ((), (0,), False)])
    cls = [ctx.enum(f"c{i}", kinds) if isinstance(kinds[0], str) else ctx.pick(f"c{i}", kinds) for i in range(n)]
    for i, c in enumerate(cls):
        ctx.check(s.add_site(c, (i / 4, 0.0)) == i, "identifiers are consecutive")
        # whatever was asked on the way
        asked = s.sites(site_class=kinds[0])
        ctx.check(AND([OR([r == kinds[0] for r in cls[:i + 1]]) if asked else NOT(OR([r == kinds[0] for r in cls[:i + 1]])),
                       len(s.sites()) == i + 1, len(s.site_ids) == i + 1, len(s.all_site_classes()) <= i + 1]),
                  "the sites added so far")
        ctx.check(s.site_at((i / 4 + 0.25, 0.0)) is None, "no site there yet")
    ctx.check([x[SITE_ID] for x in s.sites()] == list(range(n)), "sites() lists every site")
    ctx.check(len(s.site_ids) == n, "every identifier once")
    for q in kinds:
        ids = [x[SITE_ID] for x in s.sites(site_class=q)]
        for i, c in enumerate(cls):
            ctx.check((i in ids) == bool(c == q), "sites(class) selects exactly that class")
        ctx.check(len(ids) == len(set(ids)), "each site once")
        present = [x for x in s.all_site_classes() if x == q]
        ctx.check(len(present) == (1 if OR([c == q for c in cls]) else 0), "each class present once")
    for i, c in enumerate(cls):
        ctx.check(s.site_class(i) == c, "class by identifier")
        ctx.check(s.class_at((i / 4, 0.0)) == c, "class by location")
        ctx.check(nearv(list(s.site_location(i)), (i / 4, 0.0)), "location by identifier")
        got = s.get_site(i)
        ctx.check(AND(got[SITE_CLASS] == c, got[SITE_ID] == i), "a site's record")
        ctx.check(nearv(list(got[LOCATION]), (i / 4, 0.0)), "a site's record")


@harness("C02", quick=[(24, 14), (150, 2), (1, 300)], thorough=[(60, 60), (1100, 1)],
         bounds="336, 300 and 300 (thorough 3600, 1100) sites of 20 classes in a cell open in one direction; any one of five at the ends of a row "
                "looked up; an occupied location refused")
def large(ctx, cfg):
    from pylattica.core.lattice import Lattice

    w, h = cfg
    s = PeriodicStructure(Lattice([(w, 0), (0, h)], (True, False)))
    order = [(x, y) for y in range(h) for x in range(w)]
    order = order[::2] + order[1::2]
    cls = {c: f"k{(c[0] + 3 * c[1]) % 20}" for c in order}
    ids = {}
    for n, c in enumerate(order):
        ctx.check(s.add_site(cls[c], (float(c[0]), float(c[1]))) == n, "identifiers are consecutive")
        ids[c] = n
    ctx.check(list(s.site_ids) == list(range(w * h)) and len(s.sites()) == w * h, "every site is listed")
    for q in sorted(set(cls.values())):
        ctx.check(sorted(x[SITE_ID] for x in s.sites(site_class=q)) == sorted(ids[c] for c in order if cls[c] == q),
                  "sites(class) selects exactly that class")
    ctx.check(sorted(s.all_site_classes()) == sorted(set(cls.values())), "each class present once")
    for c in order:
        i = ids[c]
        ctx.check(AND(s.site_class(i) == cls[c], nearv(list(s.site_location(i)), c), s.get_site(i)[SITE_ID] == i), "a site's record")
    y = ctx.pick("y", sorted({0, h // 2, h - 1, h}))
    half = ctx.bool("between")
    k = ctx.int("x", -2, 2) + ctx.pick("from", [0, w - 2])
    p = (ctx.scaled(2 * k + (1 if half else 0), 2), float(y))
    got = s.id_at(p)
    if y == h or half:
        ctx.check(got is None, "no site elsewhere")
        return
    ctx.check(AND([OR((k - x) % w != 0, got == ids[(x, y)]) for x in range(w)]), "any image of a site's location finds it")
    ctx.check(ctx.raises(lambda: s.add_site("more", p), Exception) is not None, "an occupied location is refused")
    ctx.check(len(s.sites()) == w * h, "a refused site leaves nothing behind")
