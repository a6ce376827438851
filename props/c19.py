"""Random seeds."""
from symx.api import AND, OR, harness
from props.c18 import _product, _setup, _whole, occ


class NeverEnds(Exception):
    pass


def _apart(a, b, size):
    """How far apart two cells are along the direction they are furthest in, around the edges."""
    return max(min((x - y) % size, (y - x) % size) for x, y in zip(a, b))


@harness("C19", quick=[(2, 3, 1, 1), (2, 4, 2, 1), (2, 3, 2, None), (2, 3, 2, 0), (2, 6, 2, 2), (3, 2, 2, None), (3, 4, 1, 1),
                       (2, 1, 1, 1), (2, 3, 0, 2)],
         thorough=[(2, 4, 3, 1), (2, 7, 2, 3), (2, 3, 3, None), (3, 3, 2, 1), (3, 4, 2, 1), (2, 8, 2, 2), (2, 2, 4, None), (2, 5, 2, 1)],
         bounds="up to two seeds (thorough: four) on grids of 1 to 6 cells per side in 2 and of 2 and 4 in 3 dimensions (thorough: 8), buffers of 0 to 2 "
                "(thorough: 3) or none, every sequence of draws, with one rejected draw on the smaller grids",
         covers=lambda cfg: [f"{w} cell" for w in ("first", "last")] if cfg[2] and _fits(cfg) else [])
def placing(ctx, cfg):
    dim, size, n, buffer = cfg
    ctx.max_draws = n + (1 if size ** dim <= 16 and n < 3 or size ** (dim * n) <= 64 else 0)
    amounts = {"B": 1, "C": 1} if n > 1 else {"B": 1}
    sim = _setup(dim).setup_random_sites(size, n, "-", amounts, **({} if buffer == 2 and n == 2 else dict(buffer=buffer)))
    at = _whole(ctx, sim, size, dim)
    seeds = {c: occ(sim, i) for c, i in at.items() if not occ(sim, i) == "-"}
    ctx.check(len(seeds) == n, "as many as asked")
    ctx.check(sorted(seeds.values()) in {0: ([],), 1: (["B"],), 2: (["B", "C"],), 3: (["B", "B", "C"], ["B", "C", "C"]), 4: (["B", "B", "C", "C"],)}[n],
              "in the asked ratio")
    cs = sorted(seeds)
    for k, a in enumerate(cs):
        for b in cs[:k]:
            ctx.check(buffer is None or _apart(a, b, size) > buffer, "not within the buffer")
    ctx.cover("done")
    if min(at) in seeds:
        ctx.cover("first cell")
    if max(at) in seeds:
        ctx.cover("last cell")
    ctx.observe([(c, seeds[c]) for c in cs])


def _fits(cfg):
    dim, size, n, buffer = cfg
    return n < 2 or buffer is None or size > 2 * buffer + 1 or n == 1


@harness("C19", quick=[(3, 6, 2), (2, 9, 3), (2, 13, 5), (3, 4, 1)], thorough=[(3, 8, 3), (2, 20, 8)],
         bounds="two seeds on grids of up to 13 cells per side in 2 and 6 in 3 dimensions (thorough: 20, 8), buffers of up to 5 (8): the "
                "second draw any number up to the buffer and one further from the first, along each direction, around the edges too")
def spaced(ctx, cfg):
    dim, size, buffer = cfg
    first = [ctx.pick(f"a{i}", [0, size // 2] if i == 0 and dim == 2 else [0]) for i in range(dim)]
    by = [ctx.pick(f"b{i}", [0, -1, buffer, buffer + 1] if i == 0 else [0, 1, -buffer] if i == 1 else [-buffer, 1]) for i in range(dim)]
    second = [(a + b) % size for a, b in zip(first, by)]
    far = [(a + size // 2) % size for a in first]

    def index(c):
        i = 0
        for x in c:
            i = i * size + x
        return i

    draws = [index(first), index(second), index(far)]
    ctx.script = lambda d: draws[d] if d < 3 else d % size ** dim
    sim = _setup(dim).setup_random_sites(size, 2, "-", {"B": 1, "C": 1}, buffer=buffer)
    at = _whole(ctx, sim, size, dim)
    cs = [c for c, i in at.items() if occ(sim, i) != "-"]
    ctx.check(len(cs) == 2, "as many as asked")
    ctx.check(sorted(occ(sim, at[c]) for c in cs) == ["B", "C"], "in the asked ratio")
    ctx.check(_apart(cs[0], cs[1], size) > buffer, "not within the buffer")


@harness("C19", quick=[2, 3], thorough=[4],
         bounds="two and three phases (thorough: four), relative amounts of 0 to 4 each and not all 0, given as integers or halved, any number of "
                "sites up to 9, or a fraction off such a number, placed on the sites in order")
def shares(ctx, k):
    n = ctx.size("n", 0, 9)
    asked = n if n == 0 else n + (ctx.pick("off", [0, -1e-9, 0.25, -0.25]) if k == 2 else (0.25, -1e-9)[n % 2])
    amts = [ctx.size(f"a{i}", 0, 4) for i in range(k)]
    ctx.assume(sum(amts) > 0)
    halved = bool(ctx.bool("halved"))
    ctx.script = lambda d: d % 9
    names = ["B", "C", "D", "E"][:k]
    sim = _setup(2).setup_random_sites(3, asked, "-", {p: a / 2 if halved else a for p, a in zip(names, amts)}, buffer=None)
    at = _whole(ctx, sim, 3, 2)
    got = {p: 0 for p in names}
    for i in at.values():
        o = occ(sim, i)
        if o != "-":
            ctx.check(o in names, "of the phases asked for")
            got[o] += 1
    ctx.check(sum(got.values()) == n, "as many as asked")
    for p, a in zip(names, amts):
        # |got - n a / sum| < 1
        ctx.check(abs(got[p] * sum(amts) - n * a) < sum(amts), "within one of the asked ratio")
    ctx.observe(sorted(got.items()))


@harness("C19", quick=[1e-4, 1e-3, 1e6, 0.3], bounds="two phases of amounts of 1 and 2, all of them scaled by 1/10000 to 1000000, any number of sites up to 9")
def scales(ctx, by):
    n = ctx.size("n", 0, 9)
    ctx.script = lambda d: d % 9 if d < 200 else 1 / 0
    given = {"B": by, "C": 2 * by}
    sim = _setup(2).setup_random_sites(3, n, "-", given, buffer=None)
    at = _whole(ctx, sim, 3, 2)
    got = {p: sum(1 for i in at.values() if occ(sim, i) == p) for p in "BC"}
    ctx.check(got["B"] + got["C"] == n, "as many as asked")
    ctx.check(abs(3 * got["B"] - n) < 3 and abs(3 * got["C"] - 2 * n) < 3, "within one of the asked ratio")
    ctx.check(given == {"B": by, "C": 2 * by}, "the amounts are left as they were")


@harness("C19", quick=[2, 3], bounds="one setup used nine times over for grids of 3x3 or 2x2x2 cells and others, all of whose sites are asked for, or as many as fit; any first draw each time")
def used_again(ctx, dim):
    size = 3 if dim == 2 else 2
    st = _setup(dim)
    cells = size ** dim
    off = ctx.size("off", 0, cells - 1)
    for n, (s, num, buffer, amounts) in enumerate([(2, 2 ** dim, None, {"B": 1}), (size, cells, None, {"B": 1, "C": 1}), (size, cells - 1, None, {"C": 1}),
                                                   (size, 1, 1, {"B": 1}), (size, cells, None, {"B": 1}), (size, 1, 1, {"C": 2}), (6, 4, 1, {"B": 1, "D": 3}),
                                                   (size, cells, None, {"D": 1}), (size, 1, None, {"B": 1})]):
        # every call's draws go through all the sites once and again
        seen = []

        def script(d, s=s, n=n):
            seen.append(d)
            if len(seen) > 5000:
                raise NeverEnds
            return (off + len(seen) * (1 if s != 6 else 5)) % s ** dim

        ctx.script = script
        made = []
        e = ctx.raises(lambda: made.append(st.setup_random_sites(s, num, "-", amounts, buffer=buffer)), NeverEnds, RuntimeError)
        ctx.check(e is None, "placed as often as asked")
        sim = made[0]
        at = _whole(ctx, sim, s, dim)
        got = sorted(occ(sim, i) for i in at.values() if occ(sim, i) != "-")
        ctx.check(len(got) == num, "as many as asked, whatever was asked for before")
        total = sum(amounts.values())
        for p, a in amounts.items():
            ctx.check(abs(got.count(p) * total - num * a) < total, "within one of the asked ratio")
        ctx.check(set(got) <= set(amounts), "of the phases asked for")
        if buffer is not None:
            cs = [c for c, i in at.items() if occ(sim, i) != "-"]
            ctx.check(all(_apart(a, b, s) > buffer for k, a in enumerate(cs) for b in cs[:k]), "not within the buffer")
        for i in at.values():
            sim.state.set_site_state(i, {"DISCRETE_OCCUPANCY": "changed"})


@harness("C19", quick=[(2, 3, 2, 1), (2, 2, 5, None), (2, 5, 2, 2), (2, 4, 5, 1), (3, 2, 2, 1), (2, 3, 10, None)], thorough=[(3, 5, 2, 2), (2, 6, 5, 2)],
         bounds="requests that cannot be met, grids of 2 to 5 cells per side (thorough: 6), any first two draws, then draws going around the sites")
def giving_up(ctx, cfg):
    dim, size, n, buffer = cfg
    ctx.scripted_from = 2 if size ** dim <= 9 else 1

    def script(d):
        if d > 60000:
            raise NeverEnds
        return d % size ** dim

    ctx.script = script
    e = ctx.raises(lambda: _setup(dim).setup_random_sites(size, n, "-", {"B": 1, "C": 2}, buffer=buffer), RuntimeError, NeverEnds)
    ctx.check(isinstance(e, RuntimeError), "gives up with an error")


@harness("C19", quick=[(2, 20, 70, 1, 3), (2, 20, 130, None, 2), (3, 7, 12, 1, 5), (2, 25, 8, 3, 8)], thorough=[(2, 40, 300, None, 4), (2, 40, 100, 1, 9)],
         bounds="8 to 130 (thorough 300) sites of 2 to 8 (9) phases of amounts 1, 2, ... on grids of 343 to 625 (1600) cells, buffers up to 3 or none; the "
                "first draw any of four, the others given")
def large(ctx, cfg):
    dim, size, n, buffer, k = cfg
    cells = size ** dim
    off = ctx.pick("off", [0, 1, cells // 2, cells - 1])
    ctx.script = lambda d: (off + d * (2 * size + 5) + d // 7) % cells
    names = [f"p{i}" for i in range(k)]
    sim = _setup(dim).setup_random_sites(size, n, "-", {p: i + 1 for i, p in enumerate(names)}, buffer=buffer)
    at = _whole(ctx, sim, size, dim)
    seeds = {c: occ(sim, i) for c, i in at.items() if occ(sim, i) != "-"}
    ctx.check(len(seeds) == n, "as many as asked")
    total = k * (k + 1) // 2
    for i, p in enumerate(names):
        got = sum(1 for q in seeds.values() if q == p)
        ctx.check(abs(got * total - n * (i + 1)) < total, "within one of the asked ratio")
    if buffer is not None:
        cs = sorted(seeds)
        ctx.check(all(_apart(a, b, size) > buffer for i, a in enumerate(cs) for b in cs[:i]), "not within the buffer")
