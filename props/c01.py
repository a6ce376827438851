"""Wrapping into the periodic cell and coordinate conversions."""
from symx.api import AND, NOT, OR, harness
from props.util import LATTICES, cart, grid_point, lattice, near, nearv, use

DEN = 8


@harness("C01", quick=["line", "line-open", "square", "rect", "rect-half", "rect-open", "skew", "skew-half", "lower",
                       "thirds", "honeycomb", "slab", "tri-rod", "needle"],
         thorough=["plate", "steep", "sheared", "quarter", "cube", "triclinic"],
         bounds="points on the 1/8 grid of the cell up to 4 cells away in every direction, moved by up to 1e-9")
def wrap(ctx, name):
    lat, vecs, per = lattice(name)
    d = len(vecs)
    k = grid_point(ctx, "k", d, -4, 4)
    eps = [ctx.coord(f"e{i}", -1, 1, 1000) / 10**9 for i in range(d)]
    f = [ctx.scaled(n, DEN) for n in k]
    p = [x + e for x, e in zip(cart(vecs, f), eps)]
    w = lat.get_periodized_cartesian_coords(p)
    ctx.check(len(w) == d, "a point stays a point")
    g = lat.get_fractional_coords(w)
    for i in range(d):
        # where the point belongs, by integer arithmetic
        want = ctx.scaled(k[i] % DEN, DEN) if per[i] else f[i]
        ctx.check(near(g[i], want, 1e-7), "lands on its image in the cell, open directions untouched")
        if per[i]:
            ctx.check(AND(g[i] >= -1e-7, g[i] < 1), "lands inside the cell")
    w2 = lat.get_periodized_cartesian_coords(w)
    ctx.check(nearv(w, w2, 1e-8), "wrapping twice changes nothing")
    ctx.observe(list(w))


@harness("C01", quick=["line", "rect-half", "skew"], thorough=["square", "lower", "slab"],
         bounds="points on the 1/8 grid of the cell up to 100000 cells away in every direction")
def wrap_far(ctx, name):
    lat, vecs, per = lattice(name)
    d = len(vecs)
    k = [ctx.int(f"k{i}", -800000, 800000) for i in range(d)]
    f = [ctx.scaled(n, DEN) for n in k]
    g = lat.get_fractional_coords(lat.get_periodized_cartesian_coords(cart(vecs, f)))
    for i in range(d):
        want = ctx.scaled(k[i] % DEN, DEN) if per[i] else f[i]
        ctx.check(near(g[i], want, 1e-5), "lands on its image in the cell, open directions untouched")


@harness("C01", quick=["square", "rect-half", "skew"], thorough=["slab", "lower"],
         bounds="a point on the 1/8 grid up to 4 cells away, given as a tuple, list or array, asked about twice")
def given_point(ctx, name):
    import numpy as np

    lat, vecs, per = lattice(name)
    d = len(vecs)
    k = grid_point(ctx, "k", d, -4, 4)
    f = [ctx.scaled(n, DEN) for n in k]
    kind = ctx.pick("as", [tuple, list, np.array])
    p = kind([x * 1.0 for x in cart(vecs, f)])
    q = kind([0.25] * d)
    want = cart(vecs, [ctx.scaled(k[i] % DEN, DEN) if per[i] else f[i] for i in range(d)])
    first = None
    for _ in range(2):
        w = lat.get_periodized_cartesian_coords(p)
        ctx.check(nearv(list(w), want), "the image in the cell")
        ctx.check(nearv(list(lat.get_fractional_coords(p)), f), "fractional coordinates")
        ctx.check(nearv(list(lat.get_cartesian_coords(p)), cart(vecs, cart(vecs, f))), "cartesian coordinates")
        lat.cartesian_periodic_distance(p, q)
        ctx.check(nearv(list(p), cart(vecs, f)), "the point given is left as it was")
        ctx.check(nearv(list(q), [0.25] * d), "the point given is left as it was")
        if first is None:
            first = w
            kept = list(w)
    ctx.check(nearv(list(first), kept), "what was returned stays as it was")


@harness("C01", quick=["line", "rect-half", "skew", "lower", "thirds", "honeycomb", "tri-rod", "needle", "plate", "steep"],
         thorough=["sheared", "triclinic", "slab"],
         bounds="any point with coordinates up to 1000 on a 1/1000 grid")
def convert(ctx, name):
    lat, vecs, per = lattice(name)
    d = len(vecs)
    f = [ctx.coord(f"f{i}", -1000, 1000, 1000) for i in range(d)]
    c = lat.get_cartesian_coords(f)
    ctx.check(nearv(c, cart(vecs, f)), "cartesian = sum of coefficients times vectors")
    ctx.check(nearv(lat.get_fractional_coords(c), f), "fractional coordinates invert cartesian ones")
    ctx.check(nearv(lat.get_cartesian_coords(lat.get_fractional_coords(f)), f), "and the other way round")


@harness("C01", quick=["line", "rect-half", "skew", "lower", "honeycomb", "slab", "needle"],
         thorough=["plate", "steep", "tri-rod", "triclinic", "skew-half", "thirds"],
         bounds="scalings 1..4 per direction, of a lattice used before or not; points on the cell's 1/8 grid up to 4 cells away")
def scaled_lattice(ctx, name):
    lat, vecs, per = lattice(name)
    d = len(vecs)
    n = [ctx.size(f"n{i}", 1, 4 if d < 3 else 2) for i in range(d)]
    if ctx.bool("used before"):
        use(lat)
    big = lat.get_scaled_lattice(n)
    if ctx.bool("and in between"):
        use(lat)
    ctx.check(big.dim == d, "same dimension")
    ctx.check(tuple(bool(x) for x in big.periodic) == per, "same periodicity")
    for i in range(d):
        for j in range(d):
            ctx.check(near(float(big.vecs[i][j]), n[i] * vecs[i][j]), "each vector is scaled by its own count")
    k = grid_point(ctx, "k", d, -4, 4)
    f = [ctx.scaled(x, DEN) for x in k]
    g = lat.get_fractional_coords(big.get_periodized_cartesian_coords(cart(vecs, f)))
    for i in range(d):
        want = ctx.scaled(k[i] % (DEN * n[i]), DEN) if per[i] else f[i]
        ctx.check(near(g[i], want), "the scaled cell repeats every n cells")
    ctx.check(nearv(big.get_cartesian_coords(big.get_fractional_coords(cart(vecs, f))), cart(vecs, f)),
              "the scaled lattice converts to and fro")
    ctx.check(nearv(big.get_cartesian_coords(f), [x for x in cart([[y * m for y in v] for v, m in zip(vecs, n)], f)]),
              "by its own vectors")
    ctx.check(nearv([float(x) for x in big.vec_lengths],
                    [m * sum(y * y for y in v) ** 0.5 for v, m in zip(vecs, n)]), "vector lengths")
    # the original lattice is unaffected
    ctx.check(nearv(lat.get_fractional_coords(cart(vecs, f)), f), "the lattice itself is unchanged")
    for i in range(d):
        for j in range(d):
            ctx.check(near(float(lat.vecs[i][j]), vecs[i][j]), "the lattice itself is unchanged")


@harness("C01", quick=[True, False], bounds="a 2-d lattice, one flag for both directions")
def single_flag(ctx, flag):
    from pylattica.core.lattice import Lattice

    for vecs in ([(2, 0), (0, 3)], [(1, 2), (3, -1)]):
        lat = Lattice(vecs, flag) if ctx.bool("explicit") or not flag else Lattice(vecs)
        ctx.check(tuple(lat.periodic) == (flag, flag), "one flag covers every direction")
        k = grid_point(ctx, "k", 2, -3, 3)
        f = [ctx.scaled(x, DEN) for x in k]
        w = lat.get_fractional_coords(lat.get_periodized_cartesian_coords(cart(vecs, f)))
        for i in range(2):
            ctx.check(near(w[i], ctx.scaled(k[i] % DEN, DEN) if flag else f[i]), "one flag covers every direction")
        ctx.check([round(float(x), 9) for x in lat.vec_lengths]
                  == [round(sum(y * y for y in v) ** 0.5, 9) for v in vecs], "vector lengths")
