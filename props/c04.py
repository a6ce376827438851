"""The periodic distance is the shortest image's."""
import itertools

from symx.api import AND, OR, harness, round_sqrt
from props.util import LATTICES, cart, decoys, grid_point, lattice

from pylattica.core.lattice import pbc_diff_cart


def _shifts(per, reach):
    reach = (reach,) * len(per) if isinstance(reach, int) else reach
    return list(itertools.product(*[range(-r, r + 1) if p else (0,) for p, r in zip(per, reach)]))


def _is_min(ctx, d, diff, vecs, per, reach, what):
    """d is the least length of diff moved by lattice vectors, to three decimals."""
    sqs = []
    for s in _shifts(per, reach):
        img = [x + sum(n * v[j] for n, v in zip(s, vecs)) for j, x in enumerate(diff)]
        sqs.append(sum(x * x for x in img))
    ctx.check(round_sqrt(d, sqs), what)


# how far (in cells) the nearest image of a difference of less than one cell can be
REACH = {"skew": 2, "skew-half": 2, "sheared": 5, "long": 4, "lower": 2, "honeycomb": 2, "triclinic": 2, "tri-rod": 2, "steep": (9, 1)}


@harness("C04", quick=["line", "line-open", "square", "rect-half", "rect-open", "skew", "skew-half", "sheared",
                       "long", "lower", "honeycomb", "slab", "steep", "needle", "skew-first", "skew-last"],
         thorough=[n for n in LATTICES],
         bounds="two points anywhere on the 1/8 grid (1/4 for hexagonal and needle cells and in 3-d, 1/2 for steep ones) of the cell",
         query_timeout_ms=60000)
def minimum_image(ctx, name):
    lat, vecs, per = lattice(name)
    d = len(vecs)
    den = 2 if name == "steep" else 4 if name in ("honeycomb", "thirds", "needle") or d == 3 else 8
    a = grid_point(ctx, "a", d, 0, 1, den)
    b = grid_point(ctx, "b", d, 0, 1, den)
    fa, fb = ([ctx.scaled(x, den) for x in k] for k in (a, b))
    ca, cb = cart(vecs, fa), cart(vecs, fb)
    got = lat.cartesian_periodic_distance(ca, cb)
    diff = [x - y for x, y in zip(ca, cb)]
    _is_min(ctx, got, diff, vecs, per, REACH.get(name, 2), "the length of the shortest image")


@harness("C04", quick=["line", "square", "rect-half", "skew", "lower", "honeycomb", "skew-first"],
         thorough=["skew-half", "slab", "triclinic", "tri-rod", "cube"],
         bounds="as above, either point moved by up to 3 cells along periodic directions, either order",
         query_timeout_ms=60000)
def images(ctx, name):
    lat, vecs, per = lattice(name)
    d = len(vecs)
    den = 4
    a = grid_point(ctx, "a", d, 0, 1, den)
    b = grid_point(ctx, "b", d, 0, 1, den)
    t = [ctx.int(f"t{i}", -3, 3) if p else 0 for i, p in enumerate(per)]
    ca, cb = (cart(vecs, [ctx.scaled(x, den) for x in k]) for k in (a, b))
    moved = cart(vecs, [ctx.scaled(x + den * n, den) for x, n in zip(a, t)])
    reach = REACH.get(name, 2)
    which = ctx.pick("call", ["first", "second", "list", "function"])
    if which == "first":
        got = lat.cartesian_periodic_distance(moved, cb)
    elif which == "second":
        got = lat.cartesian_periodic_distance(cb, moved)
    elif which == "list":
        got = lat.cartesian_periodic_distance(list(cb), list(moved))
    else:
        got = pbc_diff_cart(moved, cb, lat)
    # a difference and its negative have images of the same lengths
    diff = [y - x if which in ("second", "list") else x - y for x, y in zip(ca, cb)]
    _is_min(ctx, got, diff, vecs, per, reach, "the same distance from every image, in either order")


@harness("C04", quick=["rect-half", "skew", "lower"], thorough=["honeycomb", "slab", "rect-open"],
         bounds="a distance asked for after those of other pairs: the same offset with any of its signs turned, its "
                "coordinates swapped or moved to another place, in this lattice and in others; offsets on the 1/4 grid",
         query_timeout_ms=60000)
def history(ctx, name):
    lat, vecs, per = lattice(name)
    d = len(vecs)
    a = grid_point(ctx, "a", d, 0, 1, 4)
    ca = cart(vecs, [ctx.scaled(x, 4) for x in a])
    zero = tuple(0.0 for _ in vecs)
    before = ctx.pick("before", ["turned", "swapped", "moved", "other lattices"])
    if before == "turned":
        turned = [-x if ctx.pick(f"sign{i}", [True, False]) else x for i, x in enumerate(ca)]
        lat.cartesian_periodic_distance(turned, zero)
    elif before == "swapped":
        lat.cartesian_periodic_distance(list(reversed(ca)), zero)
    elif before == "moved":
        lat.cartesian_periodic_distance([x + v for x, v in zip(ca, vecs[0])], vecs[-1])
    else:
        for other in decoys(vecs, per):
            other.cartesian_periodic_distance(ca, zero)
    got = lat.cartesian_periodic_distance(ca, zero)
    _is_min(ctx, got, ca, vecs, per, REACH.get(name, 2), "the distance, whatever was asked for before")


WIDE = {"wide": [(1000, 0), (0, 50)], "roomy": [(500, 0, 0), (0, 400, 0), (0, 0, 300)], "ring": [(4096,)], "sloped": [(800, 0), (400, 600)]}


@harness("C04", quick=[("wide", True), ("roomy", True), ("ring", True), ("wide", False), ("sloped", True)],
         thorough=[("roomy", False), ("sloped", False)],
         bounds="two points at most 0.03 apart along one direction and less along others (up to images), on a grid of 1/1024, at the listed places in and three cells beside cells of up "
                "to 4096 units a side", query_timeout_ms=60000)
def close_by(ctx, cfg):
    from pylattica.core.lattice import Lattice

    name, per = cfg
    vecs = WIDE[name]
    lat = Lattice(vecs, per)
    d = len(vecs)
    where = [1024 * v[i] * ctx.pick(f"a{i}", [0, 1023, 380] if i == 0 else [840]) // 1024 for i, v in enumerate(vecs)]
    free = ctx.size("free", 0, d - 1)
    by = [ctx.int("by", -30, 30) if i == free else 4 * i for i in range(d)]
    t = [ctx.size(f"t{i}", -1, 1) * 3 if per and i == 0 else 0 for i in range(d)]
    ca = [ctx.scaled(x, 1024) for x in where]
    move = [sum(n * v[j] for n, v in zip(t, vecs)) for j in range(d)]
    cb = [ctx.scaled(x + y + 1024 * m, 1024) for x, y, m in zip(where, by, move)]
    got = lat.cartesian_periodic_distance(ca, cb)
    ctx.check(round_sqrt(got, [ctx.scaled(sum(x * x for x in by), 1024 * 1024)]), "the distance of close points")


@harness("C04", bounds="two points on the 1/8 grid up to two cells away, any mix of periodic directions in 2-d")
def fractional(ctx, _):
    from pylattica.core.lattice import pbc_diff_frac_vec

    per = (ctx.pick("p0", [True, False]), ctx.pick("p1", [True, False]))
    a, b = grid_point(ctx, "a", 2, -2, 2), grid_point(ctx, "b", 2, -2, 2)
    fa, fb = ([ctx.scaled(x, 8) for x in k] for k in (a, b))
    got = pbc_diff_frac_vec(fa, fb, per)
    ctx.check(len(got) == 2, "one difference per direction")
    for i in range(2):
        g = got[i]
        if per[i]:
            ctx.check(AND(g <= 0.5 + 1e-9, g >= -0.5 - 1e-9), "at most half a cell along a periodic direction")
            # 8g is an integer congruent to the numerators' difference
            k = (a[i] - b[i]) % 8
            ctx.check(OR([AND(g * 8 - (k + 8 * n) < 1e-6, (k + 8 * n) - g * 8 < 1e-6) for n in (-1, 0)]),
                      "differs by whole cells")
        else:
            ctx.check(AND(g * 8 - (a[i] - b[i]) < 1e-6, (a[i] - b[i]) - g * 8 < 1e-6), "unwrapped where not periodic")
