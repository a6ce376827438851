"""Starting states."""
import math

from symx.api import AND, ITE, NOT, OR, harness
from props.util import OCC, SITE_ID

from pylattica.core import Simulation, SimulationState
from pylattica.discrete import PhaseSet
from pylattica.structures.square_grid import DiscreteGridSetup
from pylattica.structures.honeycomb import HoneycombTilingBuilder

DEN = 8


def _setup(dim):
    ps = PhaseSet(["A", "B", "C"])
    return DiscreteGridSetup(ps, dim=dim) if dim != 2 else DiscreteGridSetup(ps)


def _cells(struct):
    at = {}
    for i in struct.site_ids:
        at[tuple(int(round(float(x))) for x in struct.site_location(i))] = i
    return at


def _whole(ctx, sim, size, dim):
    """A simulation of the asked size with one occupancy per site; its cells."""
    ctx.check(isinstance(sim, Simulation), "a simulation")
    at = _cells(sim.structure)
    ctx.check(len(at) == size ** dim and len(sim.structure.site_ids) == size ** dim, "the asked number of sites")
    ctx.check(all(0 <= x < size for c in at for x in c), "the sites of a grid")
    one_each(ctx, sim.state, sim.structure)
    return at


def one_each(ctx, state, struct):
    ctx.check(sorted(state.site_ids()) == sorted(struct.site_ids), "a value for each site and no other")
    for i in struct.site_ids:
        s = state.get_site_state(i)
        ctx.check(OCC in s and s[SITE_ID] == i, "an occupancy for each site")


def occ(sim, i):
    return sim.state.get_site_state(i)[OCC]


@harness("C18", quick=[2, 3], bounds="grids of up to 5x5 and 3x3x3 cells and a honeycomb, any phase")
def solid(ctx, dim):
    size = ctx.size("size", 1, 5 if dim == 2 else 3)
    st = _setup(dim)
    p = ctx.enum("p", ["A", "B", "Q", "", "VACANT"])
    struct = st.build_structure(size)
    ctx.check(sorted(_cells(struct)) == sorted(_product(range(size), dim)), "the asked grid")
    if dim == 2 and ctx.bool("comb"):
        struct = HoneycombTilingBuilder().build(size)
    state = st.setup_solid_phase(struct, p)
    ctx.check(isinstance(state, SimulationState), "a state")
    one_each(ctx, state, struct)
    ctx.check(AND([state.get_site_state(i)[OCC] == p for i in struct.site_ids]), "all of the phase")


def _product(r, n):
    return [()] if n == 0 else [(x,) + t for x in r for t in _product(r, n - 1)]


@harness("C18", quick=[2, 3], thorough=[(2, 9)], bounds="grids of 1 to 6 cells per side in 2 and of 1 to 4 in 3 dimensions (thorough: 9), any two "
                                                        "phases, equal ones included; the middle column of an odd side may be of either")
def interface(ctx, cfg):
    dim, top = cfg if isinstance(cfg, tuple) else (cfg, 6 if cfg == 2 else 4)
    size = ctx.size("size", 1, top)
    p, q = ctx.enum("p", ["A", ""]), ctx.enum("q", ["A", "", "VACANT"])
    sim = _setup(dim).setup_interface(size, p, q)
    at = _whole(ctx, sim, size, dim)
    for c, i in at.items():
        o = occ(sim, i)
        if 2 * (c[0] + 1) <= size:
            ctx.check(o == p, "the left half is of the first phase")
        elif 2 * c[0] >= size:
            ctx.check(o == q, "the right half is of the second phase")
        else:
            ctx.check(OR(o == p, o == q), "the middle is of one of them")


def _inside(c, center, n):
    """Is the cell closer to the center than a radius of n steps?"""
    d2 = sum((DEN * a - DEN * b) ** 2 for a, b in zip(c, center))
    assert float(d2).is_integer()
    return n > math.isqrt(int(d2))


@harness("C18", quick=[2, 3], thorough=[(2, 7)], bounds="grids of 1 to 5 cells per side in 2 and of 1 to 3 in 3 dimensions (thorough: 7), any radius "
                                                        "from -1 to twice the side in steps of 1/8")
def particle(ctx, cfg):
    dim, top = cfg if isinstance(cfg, tuple) else (cfg, 5 if cfg == 2 else 3)
    size = ctx.size("size", 1, top)
    n = ctx.int("r", -DEN, 2 * size * DEN)
    bulk, ball = ctx.pick("phases", [("bulk", "ball"), ("", "VACANT"), ("VACANT", "")])
    sim = _setup(dim).setup_particle(size, ctx.scaled(n, DEN), bulk, ball)
    at = _whole(ctx, sim, size, dim)
    for c, i in at.items():
        isin = _inside(c, (size / 2,) * dim, n)
        ctx.check(occ(sim, i) == ITE(isin, ball, bulk), "the sites closer to the middle than the radius, and no others")


@harness("C18", quick=[(2, 3), (2, 4), (2, 5), (3, 3)], thorough=[(2, 7), (3, 4)],
         bounds="grids of 3 to 5 cells per side in 2 and of 3 in 3 dimensions (thorough: 7, 4), whole radii given as such from -1 to the side, in the "
                "middle of the grid, around whole centers or centers halfway, given as tuples, lists or arrays; phases any")
def whole_radius(ctx, cfg):
    import numpy as np

    dim, size = cfg
    r = ctx.size("r", -1, size)
    p, q = ctx.enum("p", ["A", ""]), ctx.enum("q", ["B", "VACANT"])
    st = _setup(dim)
    sim = st.setup_particle(size, r, p, q)
    at = _whole(ctx, sim, size, dim)
    for c, i in at.items():
        ctx.check(occ(sim, i) == (q if _inside(c, (size / 2,) * dim, r * DEN) else p), "the sites closer to the middle than the radius, and no others")
    center = ctx.pick("center", [(1, 0, 2), (0.5, 1, 1.5), (1.5, 1.5, 0)])[:dim]
    given = ctx.pick("as", [tuple, list, np.array])(center)
    struct = st.build_structure(size)
    at = _cells(struct)
    state = st.setup_solid_phase(struct, p)
    st.add_particle_to_state(struct, state, given, r, q)
    ctx.check(list(given) == list(center), "the center is left as it was")
    for c, i in at.items():
        ctx.check(state.get_site_state(i)[OCC] == (q if _inside(c, center, r * DEN) else p), "the sites closer to the center than the radius, and no others")


@harness("C18", quick=[2, 3], bounds="one setup asked for several starting states of any phases one after the other, on one structure and others, each changed "
                                     "before the next is asked for")
def used_again(ctx, dim):
    size = 3 if dim == 2 else 2
    st = _setup(dim)
    one, two = st.build_structure(size), st.build_structure(size)
    p, q = ctx.enum("p", ["A", ""]), ctx.enum("q", ["A", "B", "VACANT"])
    made = []

    def solid(struct, phase):
        state = st.setup_solid_phase(struct, phase)
        one_each(ctx, state, struct)
        ctx.check(AND([state.get_site_state(i)[OCC] == phase for i in struct.site_ids]), "all of the phase, whatever was asked for before")
        for k, v in enumerate(made):
            ctx.check(v.get_site_state(k)[OCC] == f"changed {k}", "and what was asked for before is kept")
        k = len(made)
        state.set_site_state(k, {OCC: f"changed {k}", "more": 1})
        made.append(state)

    def halves(a, b):
        sim = st.setup_interface(size, a, b)
        at = _whole(ctx, sim, size, dim)
        for c, i in at.items():
            ctx.check(OR(AND(2 * c[0] < size, occ(sim, i) == a), AND(2 * c[0] + 1 >= size, occ(sim, i) == b)), "two halves, whatever was asked for before")
        for i in at.values():
            sim.state.set_site_state(i, {OCC: "changed"})

    def ball(r, a, b):
        sim = st.setup_particle(size, r, a, b)
        at = _whole(ctx, sim, size, dim)
        ctx.check(AND([occ(sim, i) == (b if _inside(c, (size / 2,) * dim, r * DEN) else a) for c, i in at.items()]), "a particle, whatever was asked for before")
        for i in at.values():
            sim.state.set_site_state(i, {OCC: "changed"})

    def at_coords(a, b, cells):
        given = {b: cells}
        sim = st.setup_coords(size, a, given)
        at = _whole(ctx, sim, size, dim)
        ctx.check(given == {b: cells}, "the coordinates are left as they were")
        ctx.check(AND([occ(sim, i) == (b if c in cells else a) for c, i in at.items()]), "the given coordinates, whatever was asked for before")
        for i in at.values():
            sim.state.set_site_state(i, {OCC: "changed"})

    solid(one, p)
    solid(one, p)
    solid(one, q)
    solid(two, p)
    halves(p, q)
    halves(q, p)
    halves(p, q)
    for r in (1, 2, 1):
        ball(r, p, q)
    ball(1, q, "X")
    first = ctx.pick("first", _product(range(size), dim)[:4])
    at_coords(p, "X", [first])
    at_coords(p, "X", [(1,) * dim])
    at_coords(q, "Y", [first])
    solid(two, p)
    # a setup of the other number of dimensions
    other = _setup(5 - dim)
    ctx.check(len(other.build_structure(2).site_ids) == 2 ** (5 - dim), "its own number of dimensions")
    ctx.check(len(st.build_structure(2).site_ids) == 2 ** dim, "its own number of dimensions")


@harness("C18", quick=[(2, 3), (2, 4), (3, 2)], thorough=[(2, 5), (3, 3)],
         bounds="up to 4x4 and 2x2x2 cells (thorough: 5x5, 3x3x3), a center anywhere on and around the grid in halves, any radius up to "
                "4 in steps of 1/8, added over a grid of any two phases")
def added_particle(ctx, cfg):
    dim, size = cfg
    st = _setup(dim)
    struct = st.build_structure(size)
    at = _cells(struct)
    center = tuple(ctx.size(f"c{k}", -1, 2 * size) / 2 for k in range(dim))
    n = ctx.int("r", 0, 4 * DEN)
    state = SimulationState()
    was = {}
    for k, (c, i) in enumerate(at.items()):
        was[c] = ctx.enum(f"p{k}", ["A", "", "VACANT"]) if k < 3 else ["A", "B"][k % 2]
        state.set_site_state(i, {OCC: was[c], "other": k})
    ball = "" if dim == 3 else "ball"
    got = st.add_particle_to_state(struct, state, center, ctx.scaled(n, DEN), ball)
    one_each(ctx, got, struct)
    for k, (c, i) in enumerate(at.items()):
        s = got.get_site_state(i)
        ctx.check(s[OCC] == ITE(_inside(c, center, n), ball, was[c]), "the particle, and the rest as it was")
        ctx.check(s["other"] == k, "other values stay")


@harness("C18", quick=[(2, 3, 1), (2, 2, 2), (3, 2, 1), (2, 3, 0)], thorough=[(2, 4, 1), (2, 3, 2), (2, 2, 3), (3, 3, 1)],
         bounds="up to two particles (thorough: three) on grids of 2 and 3 cells per side, every draw of centers and phases, any radius up to 3",
         covers=lambda cfg: ["B at the first", "B at the last", "C at the first", "C at the last"] if cfg[2] == 1 else [])
def random_particles(ctx, cfg):
    dim, size, num = cfg
    n = ctx.int("r", 0, 3 * DEN)
    ctx.max_draws = (num + 1) * (dim + 1)
    fill = "" if num == 0 or dim == 3 else "-"
    sim = _setup(dim).setup_random_particles(size, ctx.scaled(n, DEN), num, fill, ["B", "C"])
    at = _whole(ctx, sim, size, dim)
    cells = list(at)
    # there are centers and phases that explain what is seen
    ways = []
    for centers in _product(cells, num):
        for phases in _product(["B", "C"], num):
            conds = []
            for c, i in at.items():
                want = fill
                for x, p in zip(centers, phases):
                    want = ITE(_inside(c, x, n), p, want)
                conds.append(occ(sim, i) == want)
            ways.append(AND(conds))
    ctx.check(OR(ways), "particles of the phases around some sites")
    if num == 1:
        for label, c in (("first", min(cells)), ("last", max(cells))):
            for p in "BC":
                if n == DEN and occ(sim, at[c]) == p:
                    ctx.cover(f"{p} at the {label}")


@harness("C18", quick=[(2, 3, False, 2), (2, 3, True, 1), (2, 2, True, 2), (3, 2, False, 2), (2, 2, False, 3)], thorough=[(2, 3, False, 3), (2, 4, True, 2), (3, 3, False, 2)],
         bounds="up to three coordinates anywhere on a grid of 2 or 3 cells per side (thorough: 4), those wrapping around it included, given to "
                "up to two phases")
def coords(ctx, cfg):
    dim, size, wrapping, num = cfg
    lo, hi = (-size, 2 * size - 1) if wrapping else (0, size - 1)

    def point(k):
        return [ctx.int(f"x{k}{d}", lo, hi) for d in range(dim)]

    one, two = ("", "C") if dim == 3 or num == 1 else ("B", "VACANT") if size == 2 else ("B", "C")
    bulk = "" if one and size == 3 else "A"
    pts = [(one, point(0)), (two, point(1)), (two, point(2))][:num]
    as_tuple = ctx.bool("tuple")
    given = {}
    for p, x in pts:
        given.setdefault(p, []).append(tuple(x) if as_tuple else list(x))
    sim = _setup(dim).setup_coords(size, bulk, given)
    at = _whole(ctx, sim, size, dim)
    for c, i in at.items():
        hit = {p: OR([AND([(v - w) % size == 0 for v, w in zip(x, c)]) for q, x in pts if q == p]) for p in (one, two)}
        o = occ(sim, i)
        ctx.check(AND(OR(o != one, hit[one]), OR(o != two, hit[two]), OR(o != bulk, AND(NOT(hit[one]), NOT(hit[two]))),
                      OR(o == bulk, o == one, o == two)), "the phases at the given coordinates and nowhere else")


@harness("C18", quick=[(2, 3), (3, 2)], thorough=[(2, 5), (3, 3)],
         bounds="a grid of 3x3 or 2x2x2 cells (thorough: 5x5, 3x3x3), all of whose cells but one or two go to one phase, in any rotation of "
                "their order, those given twice included; one to another phase or to none")
def most_coords(ctx, cfg):
    dim, size = cfg
    cells = _product(range(size), dim)
    left, other = ctx.size("left", 0, len(cells) - 1), ctx.size("other", 0, len(cells) - 1)
    r = ctx.pick("r", [0, 1, len(cells) // 2])
    most = [c for k, c in enumerate(cells) if k not in (left, other)]
    most = most[r:] + most[:r]
    if ctx.bool("twice"):
        most = most + most[:2]
    given = {"B": most, "C": [cells[other]], "D": []} if other != left else {"B": most}
    sim = _setup(dim).setup_coords(size, "A", given)
    at = _whole(ctx, sim, size, dim)
    for k, c in enumerate(cells):
        want = "A" if k == left else "C" if k == other else "B"
        ctx.check(occ(sim, at[c]) == want, "the phases at the given coordinates and nowhere else")


@harness("C18", quick=[(2, 3), (3, 2)], thorough=[(2, 5), (3, 3)], bounds="grids of 3x3 and 2x2x2 cells (thorough: 5x5, 3x3x3), every draw",
         covers=lambda cfg: [f"{p} {w}" for p in ("B", "", "VACANT") for w in ("first", "last")])
def noise(ctx, cfg):
    dim, size = cfg
    sim = _setup(dim).setup_noise(size, ["B", "", "VACANT"])
    at = _whole(ctx, sim, size, dim)
    ctx.check(AND([OR([occ(sim, i) == p for p in ("B", "", "VACANT")]) for i in at.values()]), "one of the phases everywhere")
    for p in ("B", "", "VACANT"):
        for w, c in (("first", min(at)), ("last", max(at))):
            if occ(sim, at[c]) == p:
                ctx.cover(f"{p} {w}")


@harness("C18", quick=[(2, 20), (3, 7)], thorough=[(2, 33), (3, 11)],
         bounds="grids of 20x20 and 7x7x7 cells (thorough: 33x33, 11x11x11): an interface of any two phases, noise of any draws, a "
                "particle of any of 17 radii, a coordinate list of many cells with one anywhere in a row")
def large(ctx, cfg):
    dim, size = cfg
    st = _setup(dim)
    what = ctx.pick("what", ["interface", "noise", "particle", "added", "coords"])
    if what == "interface":
        p, q = ctx.enum("p", ["A", ""]), ctx.enum("q", ["A", "", "VACANT"])
        sim = st.setup_interface(size, p, q)
        at = _whole(ctx, sim, size, dim)
        ctx.check(AND([occ(sim, i) == (p if 2 * c[0] < size else q) for c, i in at.items() if 2 * c[0] + 1 != size]), "two halves")
        ctx.check(AND([OR(occ(sim, i) == p, occ(sim, i) == q) for c, i in at.items()]), "the middle is of one of them")
    elif what == "noise":
        sim = st.setup_noise(size, ["B", "", "C"])
        at = _whole(ctx, sim, size, dim)
        ctx.check(AND([OR([occ(sim, i) == p for p in ("B", "", "C")]) for i in at.values()]), "one of the phases everywhere")
    elif what == "particle":
        n = ctx.int("r", DEN * size // 2 - DEN, DEN * size // 2 + DEN)
        sim = st.setup_particle(size, ctx.scaled(n, DEN), "A", "ball")
        at = _whole(ctx, sim, size, dim)
        ctx.check(AND([occ(sim, i) == ITE(_inside(c, (size / 2,) * dim, n), "ball", "A") for c, i in at.items()]),
                  "the sites closer to the middle than the radius, and no others")
    elif what == "added":
        struct = st.build_structure(size)
        at = _cells(struct)
        center = tuple(ctx.pick("center", [(0, 0, 0), (size - 1, 1, size / 2)])[:dim])
        n = ctx.int("r", DEN * size // 3, DEN * size // 3 + DEN)
        got = st.add_particle_to_state(struct, st.setup_solid_phase(struct, "A"), center, ctx.scaled(n, DEN), "ball")
        one_each(ctx, got, struct)
        ctx.check(AND([got.get_site_state(i)[OCC] == ITE(_inside(c, center, n), "ball", "A") for c, i in at.items()]),
                  "the particle, and the rest as it was")
    else:
        cells = _product(range(size), dim)
        x = ctx.int("x", 0, size - 1)
        one = (x,) + (size - 1,) * (dim - 1)
        most = [c for c in cells if sum(c) % 3 and c[1] != size - 1]
        few = [c for c in cells if sum(c) % 3 == 0 and c[1] != size - 1][::2]
        sim = st.setup_coords(size, "A", {"B": most + [one], "C": few})
        at = _whole(ctx, sim, size, dim)
        most, few = set(most), set(few)
        ctx.check(AND([occ(sim, i) == ("B" if c in most else "C" if c in few else
                                       ITE(AND([v == w for v, w in zip(c, one)]), "B", "A")) for c, i in at.items()]),
                  "the phases at the given coordinates and nowhere else")


@harness("C18", quick=[12, 130], thorough=[300], bounds="12 or 130 (thorough 300) particles of one site each on a grid of 20x20 cells, given draws")
def many_particles(ctx, num):
    steps = [1, 7, 3, 11, 0, 5, 13, 2]
    ctx.script = lambda k: (k * 3 + steps[k % 8] + k // 8) % 20
    r = ctx.int("r", 1, DEN)
    sim = _setup(2).setup_random_particles(20, ctx.scaled(r, DEN), num, "-", ["B", "C"])
    at = _whole(ctx, sim, 20, 2)
    hits = [i for i in at.values() if occ(sim, i) != "-"]
    ctx.check(0 < len(hits) <= num and all(occ(sim, i) in ("B", "C") for i in hits), "at most one cell for each particle")
    # more cells are taken the more particles there are
    ctx.check(len(hits) > 5 if num == 12 else len(hits) > 15, "each particle is placed")
