"""Growth."""
import itertools

from symx.api import AND, ITE, NOT, OR, harness
from props.util import OCC, SITE_ID

# first, as a user may
try:
    from pylattica.models.growth import GrowthController
    ALONE = None
except ImportError as e:
    ALONE = e
    import pylattica.structures.square_grid
    from pylattica.models.growth import GrowthController

from pylattica.core import SimulationState, SynchronousRunner
from pylattica.core.neighborhood_builders import MotifNeighborhoodBuilder
from pylattica.core.runner.common import merge_updates
from pylattica.discrete import PhaseSet
from pylattica.discrete.state_constants import VACANT
from pylattica.structures.square_grid import SimpleSquare2DStructureBuilder, SimpleSquare3DStructureBuilder
from pylattica.structures.square_grid.growth_setup import GrowthSetup
from pylattica.structures.square_grid.neighborhoods import (MooreNbHoodBuilder, VonNeumannNbHood2DBuilder, VonNeumannNbHood3DBuilder)

# a grid, its neighborhood builder and the offsets that is documented to stand for
PLUS = [(1, 0), (-1, 0), (0, 1), (0, -1)]
RING = [(x, y) for x in (-1, 0, 1) for y in (-1, 0, 1) if x or y]
STAR = [(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)]
PAST = [(1, 0), (0, 1), (1, 1), (2, 0), (-1, 2)]
CASES = {
    "plus": (2, lambda: VonNeumannNbHood2DBuilder(1), PLUS), "ring": (2, lambda: MooreNbHoodBuilder(1), RING), "default": (2, lambda: None, RING),
    "star": (3, lambda: VonNeumannNbHood3DBuilder(1), STAR), "oneway": (2, lambda: MotifNeighborhoodBuilder(PAST), PAST),
    "broad": (2, lambda: MooreNbHoodBuilder(2), [(x, y) for x in range(-2, 3) for y in range(-2, 3) if x or y]),
    "row": (2, lambda: MotifNeighborhoodBuilder([(1, 0), (-1, 0)]), [(1, 0), (-1, 0)]),
}


_BUILT = {}


def _grid(dim, size):
    """The same grid for every path: nothing here depends on the inputs."""
    if (dim, size) not in _BUILT:
        _BUILT[(dim, size)] = _build(dim, size)
    return _BUILT[(dim, size)]


def _build(dim, size):
    struct = (SimpleSquare2DStructureBuilder if dim == 2 else SimpleSquare3DStructureBuilder)().build(size)
    at = {}
    for i in struct.site_ids:
        at[tuple(int(round(float(x))) for x in struct.site_location(i))] = i
    return struct, at


def _nbs(c, offsets, size):
    out = []
    for o in offsets:
        n = tuple((a + b) % size for a, b in zip(c, o))
        if n != c and n not in out:
            out.append(n)
    return out


def _grown(ctx, before, after, nbs, bg, phases, what):
    """after is what before with these neighbors may become."""
    num = {p: sum(ITE(n == p, 1, 0) for n in nbs) for p in phases}
    alone = AND([n == bg for n in nbs])
    empty = before == bg
    # an occupied cell keeps its phase
    c = [OR(empty, after == before)]
    # an empty one takes one that none outnumbers, and that is there
    c += [OR(NOT(empty), after != p, AND([num[p] >= 1] + [num[p] >= num[q] for q in phases if q != p])) for p in phases]
    # it takes one if there is any, else stays empty
    c += [OR(NOT(empty), alone, OR([after == p for p in phases])), OR(NOT(empty), NOT(alone), after == bg)]
    ctx.check(AND(c), f"{what}: keeps its phase, takes a most common one around, or stays empty")


@harness("C17", quick=[(2, 1), (2, 2), (3, 1)], thorough=[(3, 2)],
         bounds="an empty cell with 8, 24 or 26 (thorough: 124) different phases around it, of which one, at any of four places, is there "
                "twice, at any of four others, or none; some neighbors empty or all occupied")
def many_phases(ctx, cfg):
    dim, reach = cfg
    offsets = [o for o in itertools.product(range(-reach, reach + 1), repeat=dim) if any(o)]
    size = 2 * reach + 2
    struct, at = _grid(dim, size)
    c = (1,) * dim
    around = _nbs(c, offsets, size)
    n = len(around)
    some = [0, n // 3, n // 2 + 1, n - 1]
    one = ctx.pick("one", [None] + some)
    two = ctx.pick("two", [(k + 1) % n for k in some])
    vals = {k: VACANT for k in at}
    gap = ctx.pick("gap", [0, 3])
    for k, a in enumerate(around):
        if not gap or k % gap:
            vals[a] = f"p{k}"
    if one is not None and one != two:
        vals[around[one]] = vals[around[two]] = "twice"
    st = SimulationState()
    for k, i in at.items():
        st.set_site_state(i, {OCC: vals[k]})
    ctl = GrowthController(PhaseSet(["twice"]), struct, nb_builder=MooreNbHoodBuilder(reach, dim=dim))
    ctl.pre_run(st)
    up = merge_updates(ctl.get_state_update(at[c], st), site_id=at[c])
    st.batch_update(up)
    got = st.get_site_state(at[c])[OCC]
    if one is not None and one != two:
        ctx.check(got == "twice", "takes the most common phase around")
    else:
        ctx.check(got in [vals[a] for a in around if vals[a] != VACANT], "takes a phase that is there")


@harness("C17", quick=[("plus", 3), ("oneway", 3), ("star", 2), ("ring", 2, 0), ("ring", 2, 1), ("ring", 2, 2), ("default", 1), ("row", 3)],
         thorough=[("star", 3), ("oneway", 4), ("plus", 4)],
         bounds="every arrangement of one to three phases (thorough: four) and emptiness around a cell in a corner or inside, for the listed "
                "neighborhoods; the background named anything, or by default")
def rule(ctx, cfg):
    ctx.check(ALONE is None, "the growth model can be imported on its own")
    name, n, *first = cfg
    dim, builder, offsets = CASES[name]
    size = 5 if dim == 2 else 3
    struct, at = _grid(dim, size)
    phases = ["A", "B", "C", "D"][:n]
    if name in ("oneway", "row"):
        # grows like any other where something else is the background
        phases[0] = VACANT
    bg = ctx.pick("bg", [VACANT, "E"] if name == "plus" else [""] if name == "star" else ["E"])
    c = ctx.pick("cell", [(0,) * dim, (2,) * dim] if name == "row" else [(0,) * dim])
    around = _nbs(c, offsets, size)
    # everything else is of a phase of its own, so reading it would show
    st = SimulationState()
    vals = {k: "X" for k in at}
    for k in around + [c]:
        vals[k] = ctx.enum("p" + "_".join(str(x) for x in k), [bg] + phases)
    if first:
        vals[around[0]] = ([bg] + phases)[first[0]]
    for k, i in at.items():
        st.set_site_state(i, {OCC: vals[k]})
    # whatever phases are known beforehand
    ps = PhaseSet(phases + [bg, "X"] if name != "oneway" else phases[1:2])
    if bg == VACANT and name == "plus":
        ctl = GrowthController(ps, struct, nb_builder=builder())
    elif builder() is None:
        ctl = GrowthController(ps, struct, bg)
    else:
        ctl = GrowthController(ps, struct, background_phase=bg, nb_builder=builder())
    ctl.pre_run(st)
    got = ctl.get_state_update(at[c], st)
    out = st.copy()
    out.batch_update(merge_updates(got, None, at[c]) or {})
    _grown(ctx, vals[c], out.get_site_state(at[c])[OCC], [vals[k] for k in around], bg, phases, "one cell")
    ctx.check(AND([out.get_site_state(i)[OCC] == vals[k] for k, i in at.items() if k != c]), "other cells stay")


@harness("C17", quick=[("plus", 3, 2, 3, 2), ("ring", 3, 2, 3, 2), ("row", 3, 3, 2, 2), ("oneway", 3, 2, 2, 2), ("star", 2, 2, 2, 2)],
         thorough=[("plus", 4, 2, 4, 4), ("row", 4, 3, 4, 3), ("oneway", 4, 2, 4, 4), ("ring", 4, 3, 3, 3), ("star", 2, 3, 2, 3)],
         bounds="grids of 3x3, 4x4 and 2x2x2 cells, two to four seeds anywhere of two or three phases or none, two to four steps")
def spreading(ctx, cfg):
    name, size, n, steps, seeds = cfg
    dim, builder, offsets = CASES[name]
    struct, at = _grid(dim, size)
    cells = list(at)
    phases = ["A", VACANT, "C"][:n] if name in ("row", "oneway") else ["", "B", "C"][:n] if name == "star" else ["A", "B", "C"][:n]
    vals = {k: "-" for k in at}
    where = [0] + [ctx.size(f"at{k}", 0, len(cells) - 1) for k in range(seeds - 1)]
    for k in range(1, seeds):
        ctx.assume(where[k] > where[k - 1])
    for k, w in enumerate(where):
        vals[cells[w]] = ctx.enum(f"s{k}", ["-"] + phases)
    st = SimulationState()
    for k, i in at.items():
        st.set_site_state(i, {OCC: vals[k]})
    ctl = GrowthController(PhaseSet(phases[:1] if name == "row" else phases), struct, background_phase="-", nb_builder=builder())
    res = SynchronousRunner(parallel=False).run(st, ctl, steps)
    cur = vals
    for t in range(1, steps + 1):
        out = res.get_step(t)
        nxt = {k: out.get_site_state(i)[OCC] for k, i in at.items()}
        for k in at:
            _grown(ctx, cur[k], nxt[k], [cur[x] for x in _nbs(k, offsets, size)], "-", phases, f"step {t}")
        cur = nxt
    for k, i in at.items():
        ctx.check(st.get_site_state(i)[OCC] == vals[k], "the starting state stays")


def _dist(cells, offsets, size, seed):
    """Steps after which each cell can have heard of the seed."""
    d = {seed: 0}
    t = 0
    while True:
        t += 1
        new = [c for c in cells if c not in d and any(n in d for n in _nbs(c, offsets, size))]
        if not new:
            return d
        for c in new:
            d[c] = t


@harness("C17", quick=[("plus", 4, 2, ("A", "B"), 1), ("ring", 3, 1, ("A",), 2), ("row", 3, 2, ("A", VACANT), 0), ("star", 2, 2, ("A", "B"), None),
                       ("plus", 4, 1, ("B",), 2)],
         thorough=[("plus", 5, 2, ("A", "B"), 1), ("row", 4, 2, ("B", "A"), 1), ("star", 3, 1, ("A",), 1), ("oneway", 4, 2, ("A", "B"), 1),
                   ("plus", 3, 3, ("A", "B", "C"), None), ("plus", 2, 1, ("A",), 0)],
         bounds="one to three random seeds of one to three phases on grids of 2x2 to 4x4 and 2x2x2 cells, at most one rejected "
                "draw (none on the larger grids); without buffer, the batches of the parallel run in any order",
         covers=lambda cfg: ["grown"])
def growing(ctx, cfg):
    name, size, n, phases, buffer = cfg
    dim, builder, offsets = CASES[name]
    ctx.max_draws = n + (1 if size < 4 and n < 3 else 0)
    ctx.cpus = 2 if buffer is None else 1
    ps = PhaseSet(list(phases) + ["-"])
    setup = GrowthSetup(ps, dim=dim) if dim != 2 else GrowthSetup(ps)
    starts = []
    # what growth starts from
    orig = SynchronousRunner.run

    def run(self, initial_state, *a, **k):
        starts.append(initial_state.copy())
        return orig(self, initial_state, *a, **k)

    SynchronousRunner.run = run
    try:
        sim = setup.grow(size, n, "-", {p: 1 for p in phases}, builder(), buffer=buffer)
    finally:
        SynchronousRunner.run = orig
    struct = sim.structure
    at = {}
    for i in struct.site_ids:
        at[tuple(int(round(float(x))) for x in struct.site_location(i))] = i
    ctx.check(len(at) == size ** dim, "a structure of the asked size")
    ctx.check(len(starts) == 1, "one run")
    seeds = {}
    for c, i in at.items():
        p = starts[0].get_site_state(i)[OCC]
        if p != "-":
            seeds[c] = p
    ctx.check(len(seeds) == n, "as many seeds as asked")
    ctx.cover("grown")
    ctx.observe([p for c, p in sorted(seeds.items())])
    d = {s: _dist(at, offsets, size, s) for s in seeds}
    for c, i in at.items():
        got = sim.state.get_site_state(i)[OCC]
        near = [d[s][c] for s in seeds if c in d[s]]
        if not near or min(near) > size:
            ctx.check(got == "-", "a cell growth has not reached stays empty")
        else:
            ctx.check(got in [seeds[s] for s in seeds if d[s].get(c) == min(near)], "a cell has the phase of a seed that reaches it first")


@harness("C17", bounds="controllers made one after the other, of different neighborhoods of the same kind on one structure and of the same one on structures "
                       "with as many cells; a cell with three neighbors of any of two phases or none")
def side_by_side(ctx, _):
    five, at5 = _grid(2, 5)
    flat, at_flat = _build(2, (25, 1))
    six, at6 = _build(2, (6, 4))
    tall, at_tall = _build(2, (4, 6))
    far = [(x, y) for x in range(-2, 3) for y in range(-2, 3) if 0 < abs(x) + abs(y) <= 2]
    wide = [(x, y) for x in range(-2, 3) for y in range(-2, 3) if x or y]
    cases = [(VonNeumannNbHood2DBuilder(1), PLUS, five, at5), (VonNeumannNbHood2DBuilder(2), far, five, at5),
             (MotifNeighborhoodBuilder(PAST), PAST, five, at5), (MotifNeighborhoodBuilder(PLUS[:2]), PLUS[:2], five, at5),
             (MooreNbHoodBuilder(1), RING, five, at5), (MooreNbHoodBuilder(2), wide, five, at5),
             (MooreNbHoodBuilder(1), RING, six, at6), (MooreNbHoodBuilder(1), RING, tall, at_tall)]
    one = MotifNeighborhoodBuilder(PLUS)
    cases += [(one, PLUS, five, at5), (one, PLUS, flat, at_flat), (one, PLUS, six, at6), (one, PLUS, tall, at_tall)]
    ctls = [(GrowthController(PhaseSet(["A", "B"]), s, "-", nb_builder=b), o, at) for b, o, s, at in cases]
    some = [ctx.enum(f"p{k}", ["-", "A", "B"]) for k in range(3)]
    for ctl, offsets, at in ctls:
        wrap = [max(c[k] for c in at) + 1 for k in (0, 1)]
        around = []
        for o in offsets:
            n = (o[0] % wrap[0], o[1] % wrap[1])
            if n != (0, 0) and n not in around:
                around.append(n)
        vals = {c: "X" for c in at}
        vals[(0, 0)] = "-"
        for k, c in enumerate(around):
            vals[c] = some[k] if k < 3 else "-"
        st = SimulationState()
        for c, i in at.items():
            st.set_site_state(i, {OCC: vals[c]})
        got = ctl.get_state_update(at[(0, 0)], st)
        out = st.copy()
        out.batch_update(merge_updates(got, None, at[(0, 0)]) or {})
        _grown(ctx, "-", out.get_site_state(at[(0, 0)])[OCC], [vals[c] for c in around], "-", ["A", "B", "X"], "its own neighborhood")


@harness("C17", quick=[("plus", 19, 4), ("ring", 18, 3), ("star", 7, 3), ("broad", 12, 2)], thorough=[("plus", 40, 12), ("star", 11, 5)],
         bounds="grids of 361, 324, 343 and 144 (thorough: 1600, 1331) cells with nine seeds of phases of their own, one of them of any of three or "
                "none, three or four (twelve) steps")
def large(ctx, cfg):
    name, size, steps = cfg
    dim, builder, offsets = CASES[name]
    struct, at = _grid(dim, size)
    cells = list(at)
    vals = {k: "-" for k in at}
    for k in range(9):
        vals[cells[(k * 41 + 13) % len(cells)]] = f"p{k}"
    vals[cells[0]] = ctx.enum("p", ["-", "p1", "p9", VACANT])
    phases = [f"p{k}" for k in range(10)] + [VACANT]
    st = SimulationState()
    for k, i in at.items():
        st.set_site_state(i, {OCC: vals[k]})
    ctl = GrowthController(PhaseSet(phases), struct, background_phase="-", nb_builder=builder())
    res = SynchronousRunner(parallel=False).run(st, ctl, steps)
    cur = vals
    for t in range(1, steps + 1):
        out = res.get_step(t)
        nxt = {k: out.get_site_state(i)[OCC] for k, i in at.items()}
        for k in at:
            around = [cur[x] for x in _nbs(k, offsets, size)]
            if all(isinstance(x, str) and x == "-" for x in around + [cur[k]]):
                ctx.check(nxt[k] == "-", f"step {t}: stays empty")
            else:
                _grown(ctx, cur[k], nxt[k], around, "-", phases, f"step {t}")
        cur = nxt


@harness("C17", quick=["plus", "star"], thorough=["ring", "oneway"],
         bounds="one controller (and runner) used for four states one after the other, with phases not seen before and phases in other orders, of which "
                "one is of any phase or none; one and two steps")
def used_again(ctx, name):
    dim, builder, offsets = CASES[name]
    size = 4 if dim == 2 else 3
    struct, at = _grid(dim, size)
    cells = list(at)
    ctl = GrowthController(PhaseSet(["A", "B"]), struct, "-", nb_builder=builder())
    runner = SynchronousRunner()
    phases = ["A", "B", "C", "D", "-x", VACANT]
    any_ = ctx.enum("p", ["-", "A", "B", "C", "D"])
    rounds = [("A", None), ("B", "A"), ("C", any_), (any_, "D")]
    # or backwards
    if ctx.pick("order", [True, False]):
        rounds.reverse()
    for n, (p, q) in enumerate(rounds):
        vals = {k: "-" for k in at}
        vals[cells[5]] = p
        if q is not None:
            vals[cells[-2]] = q
            vals[cells[7]] = q
        st = SimulationState()
        for k, i in at.items():
            st.set_site_state(i, {OCC: vals[k]})
        res = runner.run(st, ctl, 1 + n % 2)
        cur = vals
        for t in range(1, 2 + n % 2):
            nxt = {k: res.get_step(t).get_site_state(i)[OCC] for k, i in at.items()}
            for k in at:
                _grown(ctx, cur[k], nxt[k], [cur[x] for x in _nbs(k, offsets, size)], "-", phases, f"state {n}, step {t}")
            cur = nxt
