"""Class-dependent and stochastic neighborhoods."""
from symx.api import AND, NOT, OR, harness
from props.util import lattice

from pylattica.core.neighborhood_builders import (
    AnnularNeighborhoodBuilder, DistanceNeighborhoodBuilder, MotifNeighborhoodBuilder,
    SiteClassNeighborhoodBuilder, StochasticNeighborhoodBuilder)
from pylattica.core.structure_builder import StructureBuilder

MOTIF = {"A": [(0, 0)], "B": [(4, 0)], "C": [(0, 4), (4, 4)]}
PLACES = [(0, 0), (0.5, 0), (0.5, 1), (1, 1), (0, 1.5)]


def _structure(size=(2, 2)):
    """Three classes of sites on a grid with cells of two halves (eighths of a cell)."""
    lat, _, _ = lattice("square")
    return StructureBuilder(lat, {c: [tuple(x / 8 for x in p) for p in ps] for c, ps in MOTIF.items()}).build(size)


def _members(ctx, cutoff):
    return {
        "near": lambda: DistanceNeighborhoodBuilder(cutoff),
        "ring": lambda: AnnularNeighborhoodBuilder(0.75, cutoff),
        "right": lambda: MotifNeighborhoodBuilder([(0.5, 0)]),
        "cross": lambda: MotifNeighborhoodBuilder([(1, 0), (0, 1), (0.5, 0.5)]),
        "never": lambda: MotifNeighborhoodBuilder([(0.1, 0.3)]),
    }


@harness("C07", quick=[("two", 3), ("all", 3), ("one", 4), ("none", 2), ("nested", 3)], thorough=[("two", 5), ("all", 5)],
         bounds="2..5 sites, each of any of 3 classes; each class has a distance or ring builder (any cutoff "
                "from 0.25 to 2), an offset builder or none, for every choice; every site")
def by_class(ctx, cfg):
    from pylattica.core.periodic_structure import PeriodicStructure
    from pylattica.core.lattice import Lattice

    which, n = cfg
    s = PeriodicStructure(Lattice([(2, 0), (0, 2)], (True, False)))
    cls = [ctx.enum(f"c{i}", ("A", "B", "C")) for i in range(n)]
    for c, p in zip(cls, PLACES):
        s.add_site(c, p)
    cutoff = ctx.coord("cutoff", 0.25, 2, 8)
    kinds = _members(ctx, cutoff)
    classes = {"two": ["A", "B"], "all": ["C", "A", "B"], "one": ["B"], "none": [], "nested": ["A", "B"]}[which]
    opts = {"two": ["near", "right", "ring"], "all": ["near", "cross"], "nested": ["near", "right"]}.get(which, ["near", "cross", "never"])
    picked = {c: ctx.pick(c, opts) for c in classes}
    builders = {c: kinds[k]() for c, k in picked.items()}
    if len(set(picked.values())) < len(picked) and ctx.pick("shared", [False, True]):
        # one builder serves all classes it is picked for
        one = {k: kinds[k]() for k in picked.values()}
        builders = {c: one[k] for c, k in picked.items()}
    only = ctx.pick("only", [None, "A", "C"])
    if which == "nested":
        nb = SiteClassNeighborhoodBuilder({"A": builders["A"], "B": SiteClassNeighborhoodBuilder({"B": builders["B"]})})
    else:
        nb = SiteClassNeighborhoodBuilder(builders)
    nb = nb.get(s) if only is None else nb.get(s, site_class=only)
    direct = {c: kinds[k]().get(s) for c, k in picked.items()}
    for i in s.site_ids:
        got = nb.neighbors_of(i, include_weights=True)
        plain = nb.neighbors_of(i)
        ctx.check(sorted(plain) == sorted(j for j, _ in got), "with and without weights alike")
        for c in ("A", "B", "C"):
            its = cls[i] == c
            if c not in picked or (only is not None and c != only):
                ctx.check(OR(NOT(its), len(got) == 0), "no neighbors for a class without builder")
                continue
            want = direct[c].neighbors_of(i, include_weights=True)
            ctx.check(OR(NOT(its), sorted(j for j, _ in got) == sorted(j for j, _ in want)),
                      "neighbors are those of the class's builder")
            for j, w in want:
                ctx.check(OR([NOT(its)] + [AND(k == j, w == x) for k, x in got]), "with its weights")


@harness("C07", bounds="3 sites of two classes, which are any two of a list of names, numbers and tuples; a builder of its own "
                       "for one or both; every site")
def class_names(ctx, _):
    from pylattica.core.periodic_structure import PeriodicStructure
    from pylattica.core.lattice import Lattice

    one, two = ctx.pick("one", NAMES), ctx.pick("two", NAMES)
    ctx.assume(one != two)
    s = PeriodicStructure(Lattice([(2, 0), (0, 2)], (True, False)))
    for c, p in zip((one, two, one), PLACES):
        s.add_site(c, p)
    cutoff = ctx.coord("cutoff", 0.25, 2, 8)
    builders = {one: DistanceNeighborhoodBuilder(cutoff)}
    if ctx.pick("both", [True, False]):
        builders[two] = MotifNeighborhoodBuilder([(0, 1)])
    direct = {c: b.get(s) for c, b in builders.items()}
    nb = SiteClassNeighborhoodBuilder(builders).get(s)
    for i, c in enumerate((one, two, one)):
        want = sorted(direct[c].neighbors_of(i)) if c in direct else []
        ctx.check(sorted(nb.neighbors_of(i)) == want, "neighbors are those of the class's builder")


NAMES = ["A", "AB", "1", 1, 0, "", ("A", 1)]


class Opposite(DistanceNeighborhoodBuilder):
    """The sites that are no nearer than the cutoff."""

    def get_neighbors(self, curr_site, struct):
        near = [j for j, _ in super().get_neighbors(curr_site, struct)]
        return [(j, 1.0) for j in struct.site_ids if j not in near and j != curr_site["_site_id"]]


@harness("C07", covers=lambda _: ["near", "far", "same"],
         bounds="4 sites; a stochastic neighborhood of builders of a user's class and of its base class with equal parameters; "
                "any cutoff from 0.25 to 2; every draw")
def stochastic_alike(ctx, _):
    from pylattica.core.periodic_structure import PeriodicStructure
    from pylattica.core.lattice import Lattice

    s = PeriodicStructure(Lattice([(2, 0), (0, 2)], (True, False)))
    for p in PLACES[:4]:
        s.add_site("A", p)
    cutoff = ctx.coord("cutoff", 0.25, 1.5, 8)
    make = {"near": lambda: DistanceNeighborhoodBuilder(cutoff), "far": lambda: Opposite(cutoff),
            "same": lambda: MotifNeighborhoodBuilder([])}
    nb = StochasticNeighborhoodBuilder([make[k]() for k in make]).get(s)
    got = sorted(nb.neighbors_of(0))
    direct = {k: sorted(f().get(s).neighbors_of(0)) for k, f in make.items()}
    hits = [k for k, v in direct.items() if v == got]
    ctx.check(len(hits) > 0, "the neighbors one of the builders gives")
    for h in hits:
        if len(hits) == 1:
            ctx.cover(h)


@harness("C07", quick=[["A"], ["B", "A"], []], thorough=[["C", "B", "A"]],
         bounds="4 sites, each of any of 3 classes; neighborhoods built one by one and put together by class, each covering "
                "every site; a distance, ring or offset builder for each, any cutoff from 0.25 to 2")
def put_together(ctx, classes):
    from pylattica.core.lattice import Lattice
    from pylattica.core.neighborhoods import SiteClassNeighborhood
    from pylattica.core.periodic_structure import PeriodicStructure

    s = PeriodicStructure(Lattice([(2, 0), (0, 2)], (True, False)))
    cls = [ctx.enum(f"c{i}", ("A", "B", "C")) for i in range(4)]
    for c, p in zip(cls, PLACES):
        s.add_site(c, p)
    kinds = _members(ctx, ctx.coord("cutoff", 0.25, 2, 8))
    nbs = {c: kinds[ctx.pick(c, ["near", "cross"])]().get(s) for c in classes}
    nb = SiteClassNeighborhood(s, dict(nbs))
    for i in s.site_ids:
        got = nb.neighbors_of(i, include_weights=True)
        ctx.check(sorted(nb.neighbors_of(i)) == sorted(j for j, _ in got), "with and without weights alike")
        for c in ("A", "B", "C"):
            its = cls[i] == c
            if c not in nbs:
                ctx.check(OR(NOT(its), len(got) == 0), "no neighbors for a class without neighborhood")
                continue
            want = nbs[c].neighbors_of(i, include_weights=True)
            ctx.check(OR(NOT(its), sorted(j for j, _ in got) == sorted(j for j, _ in want)), "those of the class's neighborhood")


DOCUMENTED = {
    # nearest cells and one diagonal pair
    "hex2": [((1, 0), (-1, 0), (0, 1), (0, -1), (1, 1), (-1, -1)), ((1, 0), (-1, 0), (0, 1), (0, -1), (1, -1), (-1, 1))],
    # all surrounding cells but those on one side
    "pent": [tuple((x, y) for x in (-1, 0, 1) for y in (-1, 0, 1) if (x, y) != (0, 0) and (x, y)[ax] != side)
             for ax in (0, 1) for side in (-1, 1)],
    # nearest cells and one body diagonal
    "hex3": [tuple([(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1),
                    (1, b, c), (-1, -b, -c)]) for b in (1, -1) for c in (1, -1)],
}


def _ready(kind):
    from pylattica.structures.square_grid import neighborhoods as m

    return {"hex2": m.PseudoHexagonalNeighborhoodBuilder2D, "hex3": m.PseudoHexagonalNeighborhoodBuilder3D,
            "pent": m.PseudoPentagonalNeighborhoodBuilder}[kind]()


def _stencils(kind):
    if kind in DOCUMENTED:
        return DOCUMENTED[kind]
    return [((1, 0),), ((0, 1), (0, -1)), ((1, 1), (0, 1), (-1, 0))][:int(kind)]


@harness("C07", quick=["1", "2", "3", "hex2", "hex3", "pent"],
         covers=lambda kind: [f"pattern {k}" for k in range(len(_stencils(kind)))],
         bounds="every random draw of two successive requests; any site of a periodic grid of 3 cells a side (four of them in 3 dimensions), and of any class")
def stochastic(ctx, kind):
    from pylattica.core.lattice import Lattice

    sts = _stencils(kind)
    d = 3 if kind == "hex3" else 2
    n = 3
    vecs = [tuple(1 if i == j else 0 for j in range(d)) for i in range(d)]
    s = StructureBuilder(Lattice(vecs, (True,) * d), {"A": [(0.25,) * d]}).build((n,) * d)
    if kind in DOCUMENTED:
        b = _ready(kind)
    else:
        b = StochasticNeighborhoodBuilder([MotifNeighborhoodBuilder([list(o) for o in st]) for st in sts])
    cls = ctx.pick("class", [None, "A", "B"])
    nb = b.get(s) if cls is None else b.get(s, site_class=cls)
    i = ctx.size("site", 0, n ** d - 1) if d == 2 else ctx.pick("site", [0, 5, 13, 26])
    cell = [(i // n ** (d - 1 - k)) % n for k in range(d)]

    def ids(st):
        out = []
        for o in st:
            j = 0
            for a, x in zip(cell, o):
                j = j * n + (a + x) % n
            out.append(j)
        return sorted(out)

    for r in range(2):
        weights = ctx.bool(f"w{r}") if r else False
        if weights:
            ws = nb.neighbors_of(i, include_weights=True)
            got = sorted(j for j, _ in ws)
        else:
            got = sorted(nb.neighbors_of(i))
        if cls == "B":
            ctx.check(got == [], "nothing for a class the site is not of")
            continue
        hits = [k for k, st in enumerate(sts) if got == ids(st)]
        ctx.check(len(hits) == 1, "the neighbors one of the builders gives")
        if weights:
            for j, w in ws:
                ls = {round(sum(x * x for x in o) ** 0.5, 2) for o in sts[hits[0]] if ids([o]) == [j]}
                ctx.check(any(abs(float(w) - v) < 1e-6 for v in ls), "with their weights")
        ctx.cover(f"pattern {hits[0]}")


@harness("C07", covers=lambda _: ["near", "far", "offset"],
         bounds="16 sites of 3 classes; distance, ring and offset builders in one stochastic neighborhood, any cutoff from "
                "0.25 to 0.6; every draw")
def stochastic_mixed(ctx, _):
    s = _structure()
    cutoff = ctx.coord("cutoff", 0.25, 0.625, 8)
    make = {"near": lambda: DistanceNeighborhoodBuilder(cutoff), "far": lambda: AnnularNeighborhoodBuilder(0.75, 1.125),
            "offset": lambda: MotifNeighborhoodBuilder([(0.5, 0)])}
    nb = StochasticNeighborhoodBuilder([f() for f in make.values()]).get(s)
    i = ctx.size("site", 0, 3)
    direct = {k: sorted(f().get(s).neighbors_of(i)) for k, f in make.items()}
    got = sorted(nb.neighbors_of(i))
    hits = [k for k, v in direct.items() if v == got]
    ctx.check(len(hits) > 0, "the neighbors one of the builders gives")
    for h in hits:
        ctx.cover(h)


@harness("C07", quick=[(12, 9), (130, 4)], thorough=[(40, 40), (200, 9)],
         bounds="108 and 520 (thorough 1600, 1800) sites of 12 and 130 (40, 200) classes, each with an offset builder of its own or none; "
                "every site; one class's offset free among five")
def many_classes(ctx, cfg):
    from pylattica.core.lattice import Lattice
    from pylattica.core.periodic_structure import PeriodicStructure

    w, h = cfg
    s = PeriodicStructure(Lattice([(w, 0), (0, h)], (True, True)))
    for x in range(w):
        for y in range(h):
            s.add_site(f"k{x}", (float(x), float(y)))
    step = ctx.int("step", 1, 5)
    by = {f"k{x}": (x % 3 + 1, 0) for x in range(w) if x % 5 != 4}
    by["k0"] = (step, 0)
    b = SiteClassNeighborhoodBuilder({c: MotifNeighborhoodBuilder([o]) for c, o in by.items()})
    nb = b.get(s)
    for x in range(w):
        for y in range(h):
            got = nb.neighbors_of(x * h + y)
            o = by.get(f"k{x}")
            if o is None:
                ctx.check(got == [], "a class without a builder has no neighbors")
            else:
                ctx.check(AND(len(got) == 1, got[0] == (x + o[0]) % w * h + y), "its class's offset")
