"""Game of Life variants."""
from symx.api import AND, ITE, NOT, OR, harness
from props.util import LOCATION, OCC, SITE_ID

from pylattica.core import SimulationState, SynchronousRunner
from pylattica.models.game_of_life import Anneal, Diamoeba, GameOfLifeController, Life, Maze, Seeds
from pylattica.structures.square_grid import SimpleSquare2DStructureBuilder

NAMED = {"Life": (Life, [3], [2, 3]), "Seeds": (Seeds, [2], []), "Anneal": (Anneal, [4, 6, 7, 8], [3, 5, 6, 7, 8]),
         "Diamoeba": (Diamoeba, [3, 5, 6, 7, 8], [5, 6, 7, 8]), "Maze": (Maze, [3], [1, 2, 3, 4, 5]), "default": (None, [3], [2, 3])}


def _grid(size):
    # the grid's first lattice vector points along y
    struct = SimpleSquare2DStructureBuilder().build((size[1], size[0]) if size[0] != size[1] else size[0])
    at = {}
    for x in range(size[0]):
        for y in range(size[1]):
            at[(x, y)] = struct.id_at((x, y))
    return struct, at


def _around(x, y, size):
    return [((x + dx) % size[0], (y + dy) % size[1]) for dx in (-1, 0, 1) for dy in (-1, 0, 1) if dx or dy]


def _expected(alive, n, born, survive):
    """Whether a cell lives next, of n living neighbors."""
    return OR(AND(alive, OR([n == d for d in survive])), AND(NOT(alive), OR([n == d for d in born])))


def _count(bs):
    return sum(ITE(b, 1, 0) for b in bs)


def _name(b):
    return ITE(b, "alive", "dead")


def _state(at, lives):
    st = SimulationState()
    for c, i in at.items():
        st.set_site_state(i, {OCC: _name(lives[c])})
    return st


def _is(ctx, state, at, lives, what):
    ctx.check(AND([state.get_site_state(i)[OCC] == _name(lives[c]) for c, i in at.items()]), what)


def _next(lives, size, born, surv):
    return {c: _expected(lives[c], _count([lives[n] for n in _around(*c, size)]), born, surv) for c in lives}


@harness("C16", quick=[(3, 3, 1, 2), (3, 3, 9, 9), (4, 5, 5, 4), (5, 3, 0, 1), (4, 4, 9, 9)],
         thorough=[(6, 6, 2, 0), (5, 7, 6, 7), (3, 3, 4, 0), (3, 8, 8, 9), (9, 9, 9, 9)],
         bounds="rule strings with up to nine digits on either side, in any order, repeated or not; every pattern of the nine cells "
                "around each cell of grids of 3x3 to 5x4 cells (thorough: to 9x9)")
def one_cell(ctx, cfg):
    w, h, nb, ns = cfg
    born = [ctx.int(f"b{i}", 0, 8) for i in range(nb)]
    surv = [ctx.int(f"s{i}", 0, 8) for i in range(ns)]
    struct, at = _grid((w, h))
    rule = ctx.rule_string("B", *born, "/", "S", *surv)
    c = ctx.pick("cell", list(at))
    around = _around(*c, (w, h))
    # the other cells live, so counting them would show
    lives = {k: True for k in at}
    for k in around + [c]:
        lives[k] = ctx.bool(f"l{k[0]}_{k[1]}")
    st = _state(at, lives)
    ctl = GameOfLifeController(struct, rule) if sum(c) % 2 else GameOfLifeController(structure=struct, variant=rule)
    ctl.pre_run(st)
    got = ctl.get_state_update(at[c], st)
    want = _expected(lives[c], _count([lives[n] for n in around]), born, surv)
    ctx.check(got[OCC] == _name(want), "alive exactly when the rule string says so")
    ctx.observe(got[OCC])


@harness("C16", quick=[(n, 3, 3, 2) for n in NAMED if n != "default"] + [("default", 4, 3, 1), ("Seeds", 4, 4, 1)],
         thorough=[(n, 4, 4, 2) for n in NAMED] + [("Life", 3, 3, 3), ("Maze", 5, 5, 1), ("Life", 6, 5, 1)],
         bounds="every pattern on whole grids of 3x3 to 4x4 cells (thorough: 6x5), each named variant, runs of one and two steps "
                "(thorough: three)")
def runs(ctx, cfg):
    name, w, h, steps = cfg
    rule, born, surv = NAMED[name]
    struct, at = _grid((w, h))
    lives = {c: ctx.bool(f"l{c[0]}_{c[1]}") for c in at}
    ctl = GameOfLifeController(struct) if rule is None else GameOfLifeController(struct, variant=rule)
    st = _state(at, lives)
    first = lives
    res = SynchronousRunner(parallel=False).run(st, ctl, steps, verbose=False)
    for t in range(steps + 1):
        _is(ctx, res.get_step(t), at, lives, f"cells after step {t}")
        lives = _next(lives, (w, h), born, surv)
    _is(ctx, st, at, first, "the starting state stays")


class SeedsController(GameOfLifeController):
    variant = "B2/S"


@harness("C16", bounds="a five-cell patch of any pattern on a 5x4 grid, four variants used side by side, and on grids of other sides with "
                       "as many cells or fewer, one step")
def side_by_side(ctx, _):
    names = ["Life", "Seeds", "Anneal", "Maze"]
    a, at = _grid((5, 4))
    b, bt = _grid((3, 6))
    # as many cells as the first two
    c, ct = _grid((4, 5))
    d, dt = _grid((6, 3))
    ctls = [(GameOfLifeController(a, variant=NAMED[n][0]), a, at, (5, 4), NAMED[n]) for n in names]
    ctls.append((SeedsController(b), b, bt, (3, 6), NAMED["Seeds"]))
    ctls.append((GameOfLifeController(b), b, bt, (3, 6), NAMED["Life"]))
    ctls.append((GameOfLifeController(c), c, ct, (4, 5), NAMED["Life"]))
    ctls.append((GameOfLifeController(d, variant=Maze), d, dt, (6, 3), NAMED["Maze"]))
    patch = [(0, 0), (1, 0), (2, 1), (1, 2), (0, 3)]
    bits = [ctx.bool(f"l{k}") for k in range(5)]
    for ctl, s, where, size, (rule, born, surv) in ctls:
        lives = {c: bits[patch.index(c)] if c in patch else False for c in where}
        st = _state(where, lives)
        out = SynchronousRunner(parallel=False).run(st, ctl, 1, verbose=False).last_step
        _is(ctx, out, where, _next(lives, size, born, surv), "each controller follows its own rule on its own grid")


@harness("C16", quick=[("Life", 19, 17, 2), ("Maze", 34, 8, 1), ("Diamoeba", 12, 25, 1)], thorough=[("Anneal", 40, 30, 2), ("Life", 12, 11, 4)],
         bounds="a patch of five cells of any pattern in the corner and the middle of grids of up to 323 (thorough 1200) cells with others, "
                "up to 2 (4) steps")
def large(ctx, cfg):
    name, w, h, steps = cfg
    rule, born, surv = NAMED[name]
    struct, at = _grid((w, h))
    bits = [ctx.bool(f"l{k}") for k in range(5)]
    lives = {(x, y): (x * 7 + y * 5 + x * y) % 3 == 0 for x, y in at}
    ox, oy = ctx.pick("where", [(w - 1, h - 1), (w // 2, h // 2)])
    for b, (x, y) in zip(bits, [(0, 0), (1, 0), (2, 1), (1, 2), (0, 3)]):
        lives[((ox + x) % w, (oy + y) % h)] = b
    res = SynchronousRunner().run(_state(at, lives), GameOfLifeController(struct, variant=rule), steps)
    for t in range(steps + 1):
        _is(ctx, res.get_step(t), at, lives, f"cells after step {t}")
        lives = _next(lives, (w, h), born, surv)


KIN = ["B3/S23", "B3/S2", "B3/S", "B36/S23", "B36/S125", "B63/S5", "B2/S23", "B1357/S02468", "B1357/S1357", "B13/S02468", "B/S23", "B/S012345678"]


@harness("C16", bounds="a dozen rules that share either side, used one after the other in any of two orders on one structure; all patterns of five "
                       "of the nine cells around a cell, up to two runs by each")
def kin(ctx, _):
    struct, at = _grid((4, 4))
    bits = [ctx.bool(f"l{k}") for k in range(5)]
    c = (0, 0)
    around = _around(*c, (4, 4))
    lives = {k: False for k in at}
    lives[c] = bits[0]
    for b, k in zip(bits[1:], around[1::2]):
        lives[k] = b
    lives[around[0]] = True
    st = _state(at, lives)
    names = KIN[::-1] if ctx.pick("order", [True, False]) else KIN
    ctls = [GameOfLifeController(struct, variant=n) for n in names]
    for _ in range(2):
        for n, ctl in zip(names, ctls):
            b, s = n.split("/")
            out = SynchronousRunner().run(st, ctl, 1).output
            _is(ctx, out, at, _next(lives, (4, 4), [int(x) for x in b[1:]], [int(x) for x in s[1:]]), f"{n} among others")
        # the next time round from another state
        lives = {k: NOT(v) if k in around[:3] else v for k, v in lives.items()}
        st = _state(at, lives)


@harness("C16", bounds="structures of 4x4 cells one after the other whose sites were added in other orders, with gaps between the identifiers or not; any "
                       "pattern of a five-cell patch; the runner and rule shared or not")
def built_otherwise(ctx, _):
    from pylattica.core import Lattice, PeriodicStructure

    cells = [(x, y) for x in range(4) for y in range(4)]
    orders = [cells, [(y, x) for x, y in cells], cells[::-1], cells[5:] + cells[:5]]
    patch = [(0, 0), (1, 0), (2, 1), (1, 2), (0, 3)]
    lives = {c: False for c in cells}
    for k, c in enumerate(patch):
        lives[c] = ctx.bool(f"l{k}")
    want = _next(lives, (4, 4), [3], [2, 3])
    first = ctx.size("first", 0, 3)
    for n in range(4):
        order = orders[(first + n) % 4]
        struct = PeriodicStructure(Lattice([(4, 0), (0, 4)]))
        for c in order:
            struct.add_site("A", c)
        at = {c: struct.id_at(c) for c in cells}
        ctl = GameOfLifeController(struct)
        out = SynchronousRunner().run(_state(at, lives), ctl, 2)
        _is(ctx, out.get_step(1), at, want, "each by its own sites")
        _is(ctx, out.output, at, _next(want, (4, 4), [3], [2, 3]), "each by its own sites")
