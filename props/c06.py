"""Offset neighborhoods: motif, von Neumann, Moore."""
import itertools

from symx.api import AND, IMPLIES, NOT, OR, harness, round_sqrt
from props.util import LATTICES, LOCATION, SITE_ID, cart, lattice

from pylattica.core.neighborhood_builders import MotifNeighborhoodBuilder
from pylattica.core.structure_builder import StructureBuilder

# where the length of a free offset is too hard for the solver
SKEWED = ("skew", "skew-half", "honeycomb", "lower", "triclinic")
# name -> lattice, repetitions, motif in half cells
STRUCTS = {
    "line": ("line", (4,), {"A": [(0,)]}),
    "line-open": ("line-open", (4,), {"A": [(0,)]}),
    "grid": ("square", (3, 3), {"A": [(0, 0)]}),
    "tiny": ("square", (1, 2), {"A": [(0, 0)]}),
    "open": ("rect-open", (2, 2), {"A": [(0, 0)]}),
    "half": ("rect-half", (2, 2), {"A": [(0, 0)], "B": [(1, 1)]}),
    "skew": ("skew", (2, 2), {"A": [(0, 0)], "B": [(1, 0)]}),
    "skew-half": ("skew-half", (2, 2), {"A": [(1, 1)]}),
    "hex": ("honeycomb", (2, 2), {"A": [(1, 1)]}),
    "slab": ("slab", (2, 1, 2), {"A": [(0, 0, 0)]}),
    "lower": ("lower", (2, 2), {"A": [(0, 0)], "B": [(1, 1)]}),
    "tri": ("triclinic", (2, 1, 2), {"A": [(0, 0, 0)], "B": [(1, 0, 1)]}),
}


def _sites(size, motif):
    """Half-cell coordinates of every site, in order of identifiers."""
    cells = itertools.product(*[range(n) for n in size])
    return [(c, tuple(2 * a + b for a, b in zip(cell, m))) for cell in cells for c, ms in motif.items() for m in ms]


def _leads(a, o, b, size, per):
    """Does offset o lead from a to b (half cells)?"""
    return AND([(x + d - y) % (2 * n) == 0 if p else x + d == y for x, d, y, n, p in zip(a, o, b, size, per)])


@harness("C06", quick=["line", "line-open", "grid", "tiny", "open", "half", "skew", "hex", "slab"],
         thorough=["skew-half", "lower", "tri"],
         bounds="the listed structures; a free offset of up to 2.5 cells in steps of half a cell, together with one of "
                "three given ones; every site (lengths in orthogonal cells only)")
def offsets(ctx, name):
    base, size, motif = STRUCTS[name]
    lat, vecs, per = lattice(base)
    d = len(size)
    b = StructureBuilder(lat, {c: [tuple(x / 2 for x in m) for m in ms] for c, ms in motif.items()})
    b.frac_coords = True
    s = b.build(size)
    sites = _sites(size, motif)
    reach = 5 if d < 3 else 3
    free = [ctx.int(f"o{i}", -reach, reach) for i in range(d)]
    given = ctx.pick("given", [None, (2,) + (0,) * (d - 1), tuple([0] * d)])
    offs = [free] + ([list(given)] if given is not None else [])
    vectors = [cart(vecs, [ctx.scaled(x, 2) for x in o]) for o in offs]
    if given is not None:
        ctx.assume(OR([x != y for x, y in zip(*offs)]))
    builder = MotifNeighborhoodBuilder([list(v) for v in vectors] if given is None else vectors)
    cls = ctx.pick("class", [None, "A"] if len(motif) > 1 else [None])
    nb = builder.get(s) if cls is None else builder.get(s, site_class=cls)
    for i, (c, a) in enumerate(sites):
        got = nb.neighbors_of(i, include_weights=True)
        plain = nb.neighbors_of(i)
        ctx.check(sorted(plain) == sorted(j for j, _ in got), "with and without weights alike")
        for j, (_, z) in enumerate(sites):
            n = len([1 for k, _ in got if k == j])
            if j == i or (cls is not None and c != cls):
                ctx.check(n == 0, "not itself, and nothing for sites of other classes")
                continue
            ctx.check(n <= 1, "each neighbor once")
            hits = [_leads(a, o, z, size, per) for o in offs]
            ctx.check((n == 1) == OR(hits), "neighbors are the sites at the offsets")
            if n == 1 and base not in SKEWED:
                w = [w for k, w in got if k == j][0]
                ctx.check(OR([AND(h, round_sqrt(w, [sum(x * x for x in v)], 0.00501)) for h, v in zip(hits, vectors)]),
                          "weighted by the offset's length to two decimals")


def _grid(ctx, dim, n, per, at=None):
    from pylattica.core.lattice import Lattice

    vecs = [tuple(1 if i == j else 0 for j in range(dim)) for i in range(dim)]
    # the cells' sites may sit anywhere in the cell
    at = at or [ctx.int(f"at{i}", 0, 7) for i in range(dim)]
    b = StructureBuilder(Lattice(vecs, per), {"A": [tuple(ctx.scaled(x, 8) for x in at)]})
    return b.build((n,) * dim)


@harness("C06", quick=[("neumann", 2, 1, 4), ("neumann", 2, 2, 4), ("neumann", 3, 1, 2), ("moore", 2, 1, 4),
                       ("moore", 2, 2, 4), ("moore", 3, 1, 2), ("moore", 1, 1, 4), ("moore", 1, 3, 5), ("neumann", 2, 3, 4), ("neumann", 2, 4, 2)],
         thorough=[("neumann", 2, 3, 7), ("neumann", 3, 2, 3), ("moore", 2, 3, 5), ("moore", 3, 1, 3)],
         bounds="grids of 1..4 cells a side (more in the thorough run), open or periodic in each direction, sites "
                "anywhere in their cells, neighborhood sizes 1..3, every site")
def ready_made(ctx, cfg):
    from pylattica.structures.square_grid.neighborhoods import (
        MooreNbHoodBuilder, VonNeumannNbHood2DBuilder, VonNeumannNbHood3DBuilder)

    kind, dim, r, nmax = cfg
    n = ctx.size("n", 1, nmax)
    if kind == "moore":
        b = MooreNbHoodBuilder(r, dim=dim)
        if r == 1 and dim == 2:
            b = MooreNbHoodBuilder()
    else:
        b = VonNeumannNbHood2DBuilder(r) if dim == 2 else VonNeumannNbHood3DBuilder(r)
        if r == 1 and dim == 2:
            b = VonNeumannNbHood2DBuilder()
    # a builder serves any number of structures
    b.get(_grid(ctx, dim, 2, (True,) * dim, [0] * dim))
    per = tuple(ctx.pick(f"p{i}", [True, False]) for i in range(min(dim, 2))) + (True,) * (dim - 2)
    s = _grid(ctx, dim, n, per)
    nb = b.get(s)
    cells = list(itertools.product(range(n), repeat=dim))
    for i, a in enumerate(cells):
        got = nb.neighbors_of(i, include_weights=True)
        ctx.check(len({j for j, _ in got}) == len(got), "each neighbor once")
        want = {}
        for o in itertools.product(range(-r, r + 1), repeat=dim):
            if kind == "neumann" and sum(abs(x) for x in o) > r:
                continue
            t = tuple((x + y) % n if p else x + y for x, y, p in zip(a, o, per))
            if t != a and t in cells:
                want.setdefault(cells.index(t), []).append(round(sum(x * x for x in o) ** 0.5, 2))
        ctx.check(sorted(want) == sorted(j for j, _ in got), "exactly the sites within the offsets")
        for j, w in got:
            ctx.check(any(abs(float(w) - v) < 1e-6 for v in want[j]), "weighted by the distance")


@harness("C06", quick=[60, 140], thorough=[400],
         bounds="60 and 140 (thorough 400) given offsets along a row of as many cells and nine more, open or periodic, one of the offsets any; every seventh site")
def many_offsets(ctx, m):
    n = m + 9
    per = ctx.pick("p", [True, False])
    s = _grid(ctx, 1, n, (per,), [3])
    # most have no counterpart in the other direction
    offs = [k if k % 5 else -k for k in range(1, m)]
    free = ctx.pick("free", [m, -1, -n + 1, n + 2, 5])
    offs.insert(m // 2, free)
    nb = MotifNeighborhoodBuilder([(float(k),) for k in offs]).get(s)
    for i in range(0, n, 7):
        want = {}
        for k in offs:
            t = (i + k) % n if per else i + k
            if 0 <= t < n and t != i:
                want.setdefault(t, []).append(abs(k))
        got = nb.neighbors_of(i, include_weights=True)
        ctx.check(sorted(want) == sorted(j for j, _ in got), "exactly the sites within the offsets")
        ctx.check(all(any(abs(float(w) - v) < 1e-6 for v in want[j]) for j, w in got), "weighted by the distance")


@harness("C06", quick=[("moore", 2, 1, 12), ("moore", 2, 4, 9), ("neumann", 2, 5, 11), ("neumann", 3, 2, 5), ("moore", 1, 9, 140)],
         thorough=[("moore", 2, 1, 16), ("moore", 2, 7, 15), ("neumann", 2, 9, 19), ("neumann", 3, 4, 6), ("moore", 3, 1, 5)],
         bounds="grids of 81 to 144 sites (thorough 361), one open too, sites anywhere in their cells in one direction, neighborhood sizes up to 9; every site")
def large(ctx, cfg):
    from pylattica.structures.square_grid.neighborhoods import (
        MooreNbHoodBuilder, VonNeumannNbHood2DBuilder, VonNeumannNbHood3DBuilder)

    kind, dim, r, n = cfg
    per = (ctx.pick("p", [True, False] if r == 5 else [True]),) + (True,) * (dim - 1)
    s = _grid(ctx, dim, n, per, [ctx.int("at", 0, 7) if r == 1 else ctx.pick("at", [0, 5])] + [3] * (dim - 1))
    b = MooreNbHoodBuilder(r, dim=dim) if kind == "moore" else VonNeumannNbHood2DBuilder(r) if dim == 2 else VonNeumannNbHood3DBuilder(r)
    nb = b.get(s)
    cells = list(itertools.product(range(n), repeat=dim))
    ids = {c: i for i, c in enumerate(cells)}
    offs = [o for o in itertools.product(range(-r, r + 1), repeat=dim) if any(o) and (kind == "moore" or sum(abs(x) for x in o) <= r)]
    for i, a in enumerate(cells):
        want = {}
        for o in offs:
            t = ids.get(tuple((x + y) % n if p else x + y for x, y, p in zip(a, o, per)))
            if t is not None and t != i:
                want.setdefault(t, []).append(round(sum(x * x for x in o) ** 0.5, 2))
        got = nb.neighbors_of(i, include_weights=True)
        ctx.check(sorted(want) == sorted(j for j, _ in got), "exactly the sites within the offsets")
        ctx.check(all(any(abs(float(w) - v) < 1e-6 for v in want[j]) for j, w in got), "weighted by the distance")
