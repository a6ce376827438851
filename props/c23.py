"""Distance tables and boxes of points."""
import itertools

from symx.api import AND, OR, harness, same
from props.util import distinct, near

import numpy as np

from pylattica.core.coordinate_utils import get_points_in_box, get_points_in_cube
from pylattica.core.distance_map import EuclideanDistanceMap, ManhattanDistanceMap, distance


def _offset(ctx, name, dim, reach, den):
    ks = [ctx.int(f"{name}{i}", -reach * den, reach * den) for i in range(dim)]
    return ks, tuple(ks) if den == 1 else tuple(ctx.scaled(k, den) for k in ks)


@harness("C23", quick=[("e", 1, 3, 9, 1), ("e", 2, 2, 6, 1), ("e", 3, 2, 3, 1), ("e", 2, 2, 2, 4), ("m", 1, 3, 50, 1), ("m", 2, 3, 9, 1),
                       ("m", 3, 2, 9, 4), ("e", 2, 3, 12, 1), ("e", 3, 2, 8, 1), ("e", 3, 1, 4, 8)],
         thorough=[("m", 3, 4, 99, 1), ("m", 2, 3, 5, 8), ("e", 2, 4, 30, 1), ("e", 3, 2, 20, 1), ("e", 2, 2, 9, 8)],
         bounds="two or three offsets (thorough: four) in one to three dimensions, with any integer coordinates up to 8 (in space) to 50, or quarters or "
                "eighths up to 4 (thorough: 9), listed in any order, and one not listed")
def tables(ctx, cfg):
    kind, dim, n, reach, den = cfg
    offs = [_offset(ctx, f"o{k}_", dim, reach, den) for k in range(n)]
    other, oloc = _offset(ctx, "u", dim, reach, den)
    for ks, _ in offs:
        ctx.assume(OR([a != b for a, b in zip(ks, other)]))
    m = (EuclideanDistanceMap if kind == "e" else ManhattanDistanceMap)([loc for _, loc in offs])
    for ks, loc in offs:
        d = m.get_dist(loc)
        ctx.check(d is not None, "a distance for each offset listed")
        if kind == "e":
            ctx.check(_to_two_decimals(d, sum(x * x for x in loc)), "the Euclidean length to two decimals")
        else:
            ctx.check(near(d, sum(abs(x) for x in loc)), "the Manhattan length")
    ctx.check(m.get_dist(oloc) is None, "nothing for others")
    ctx.check(same(m.get_dist(tuple(offs[0][1])), m.get_dist(offs[0][1])), "the same each time")


def _to_two_decimals(d, sq):
    """d is within 0.005 of sqrt(sq), and a whole number of hundredths."""
    lo, hi = d - 0.005001, d + 0.005001
    return AND(d >= 0, OR(lo <= 0, lo * lo <= sq), sq <= hi * hi, near(round(d * 100), d * 100))


@harness("C23", quick=[(1, 9, 1), (2, 4, 1), (2, 2, 4), (3, 4, 1), (2, 12, 1)], thorough=[(3, 9, 2), (2, 99, 1)],
         bounds="any two points in one to three dimensions, with integer coordinates up to 4 to 12 (thorough: 99), or quarters up to 2")
def lengths(ctx, cfg):
    dim, reach, den = cfg
    _, a = _offset(ctx, "a", dim, reach, den)
    _, b = _offset(ctx, "b", dim, reach, den)
    d = distance(np.array(a), np.array(b))
    sq = sum((x - y) * (x - y) for x, y in zip(a, b))
    ctx.check(AND(d >= 0, near(d * d, sq)), "the Euclidean distance")
    e = distance(np.array(b), np.array(a))
    ctx.check(near(e * e, sq), "either way")


@harness("C23", quick=[(1, -2, 3), (2, -1, 2), (2, 0, 3), (3, 0, 1), (4, 0, 1)], thorough=[(2, -2, 3), (3, -1, 1), (1, -9, 9), (4, -1, 1), (5, 0, 1)],
         bounds="all bounds from -2 to 3 in one dimension (thorough: -9 to 9), -1 to 2 and 0 to 3 in two (thorough: -2 to 3), 0 to 1 in three and four (thorough: -1 to "
                "1, five dimensions), cubes of up to five dimensions, upper bounds below lower ones included")
def boxes(ctx, cfg):
    dim, lo, hi = cfg
    lbs = [ctx.size(f"l{i}", lo, hi) for i in range(dim)]
    ubs = [ctx.size(f"u{i}", lo, hi) for i in range(dim)]
    pts = [tuple(p) for p in get_points_in_box(list(lbs), tuple(ubs))]
    want = list(itertools.product(*[range(a, b) for a, b in zip(lbs, ubs)]))
    ctx.check(pts == want, "every integer point from the lower bounds up to the upper ones, in order")
    if dim < 3:
        cube = [tuple(p) for p in get_points_in_cube(lbs[0], ubs[0], dim + 1)]
        ctx.check(cube == list(itertools.product(range(lbs[0], ubs[0]), repeat=dim + 1)), "a cube is a box with equal sides")
    if dim == 1 and ubs[0] - lbs[0] < 3:
        for n in (3, 4, 5):
            cube = [tuple(p) for p in get_points_in_cube(lbs[0], ubs[0], n)]
            ctx.check(cube == list(itertools.product(range(lbs[0], ubs[0]), repeat=n)), f"a cube of {n} dimensions")
    q = ctx.int("q", lo, hi)
    inside = OR([q == p[0] for p in pts])
    ctx.check(inside == (AND(q >= lbs[0], q < ubs[0]) if want or dim == 1 else False), "a coordinate occurs exactly when it is in the range")


@harness("C23", quick=[(2, 41, 7), (3, 11, 2), (1, 400, 0)], thorough=[(2, 130, 90), (3, 21, 17)],
         bounds="boxes and cubes of up to 41 (thorough: 130) points a side, with any lower bound of four; tables of up to 400 offsets (thorough: 16900) and any one more")
def large(ctx, cfg):
    dim, n, least = cfg
    lo = ctx.size("lo", -2, 1)
    ubs = [lo + n - k for k in range(dim)]
    pts = [tuple(p) for p in get_points_in_box([lo] * dim, ubs)]
    ctx.check(pts == list(itertools.product(*[range(lo, u) for u in ubs])), "every integer point from the lower bounds up to the upper ones, in order")
    cube = [tuple(p) for p in get_points_in_cube(lo, lo + n, dim)]
    ctx.check(cube == list(itertools.product(range(lo, lo + n), repeat=dim)), "a cube is a box with equal sides")
    k = ctx.int("k", 500, 900)
    offs = pts[::2] + [(k,) + (0,) * (dim - 1)] + pts[1::2]
    e, m = EuclideanDistanceMap(offs), ManhattanDistanceMap(offs)
    for o in offs:
        sq = sum(x * x for x in o)
        d, t = e.get_dist(o), m.get_dist(o)
        ctx.check(near(d, k, 0.0050001) if o[0] is k else abs(float(d) - float(sq) ** 0.5) < 0.0050001, "the Euclidean length to two decimals")
        ctx.check(near(t, sum(abs(x) for x in o), 1e-6), "the Manhattan length")
