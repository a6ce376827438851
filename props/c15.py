"""Saving and loading states, lattices, structures and simulations."""
import copy
import json
import os

from symx.api import AND, NOT, OR, harness, same
from props.util import (GENERAL, LATTICES, LOCATION, SITE_CLASS, SITE_ID, SITES, RefState, cart, congruent, grid_point, lattice,
                        make_state, near, nearv, state_is)

from pylattica.core.lattice import Lattice
from pylattica.core.periodic_structure import PeriodicStructure
from pylattica.core.simulation import Simulation
from pylattica.core.simulation_state import SimulationState


def _through(d, how):
    return json.loads(json.dumps(d)) if how == "json" else d


@harness("C15", quick=[(n, h) for n in LATTICES for h in ("dict", "json")],
         bounds="the listed lattices of 1 to 3 dimensions, periodicity given per direction, as a list, for all directions or by "
                "default, scaled or not; any point within 3 cells")
def lattices(ctx, cfg):
    name, how = cfg
    vecs, per = LATTICES[name]
    form = ctx.pick("form", ["tuple", "list"] + (["all"] if len(set(per)) == 1 else []) + (["default"] if all(per) else []))
    lat = {"tuple": lambda: Lattice(vecs, tuple(per)), "list": lambda: Lattice(list(vecs), list(per)),
           "all": lambda: Lattice(vecs, per[0]), "default": lambda: Lattice(vecs)}[form]()
    if ctx.bool("scaled"):
        lat = lat.get_scaled_lattice([2] + [1] * (len(vecs) - 1))
    d = lat.as_dict()
    got = Lattice.from_dict(_through(d, how))
    again = Lattice.from_dict(_through(got.as_dict(), how))
    for g in (got, again):
        ctx.check([[float(x) for x in v] for v in g.vecs] == [[float(x) for x in v] for v in lat.vecs], "lattice vectors")
        ctx.check(tuple(bool(p) for p in g.periodic) == tuple(per), "which directions are periodic")
        ctx.check(g.dim == lat.dim, "dimension")
        f = [ctx.coord(f"f{i}", -3, 3, 4) for i in range(len(vecs))]
        p = cart(vecs, f)
        ctx.check(nearv(list(g.get_periodized_cartesian_coords(p)), list(lat.get_periodized_cartesian_coords(p))), "wraps alike")
        ctx.check(nearv(list(g.get_fractional_coords(p)), list(lat.get_fractional_coords(p))), "converts alike")


# grids whose points stay clear of the halves at which coordinates are rounded to 3 decimals
DENS = {"honeycomb": 6, "square": 8, "rect-half": 8, "skew": 8, "slab": 8, "line": 8, "line-open": 8, "lower": 6, "cube": 3, "thirds": 4,
        "rect-open": 6, "skew-half": 3, "triclinic": 4}


def _filled(ctx, name, n, lo=0, hi=1):
    lat, vecs, per = lattice(name)
    den = DENS[name]
    ks = [grid_point(ctx, f"p{i}", len(vecs), lo, hi, den) for i in range(n)]
    for i in range(n):
        for j in range(i):
            ctx.assume(NOT(congruent(ks[i], ks[j], per, den)))
    s = PeriodicStructure(lat)
    cls = [ctx.enum(f"c{i}", ("A", "B", "C")) for i in range(n)]
    for k, c in zip(ks, cls):
        s.add_site(c, cart(vecs, [ctx.scaled(x, den) for x in k]))
    return s, vecs, per, den, ks, cls


def _same_structure(ctx, got, s, cls, what):
    n = len(cls)
    ctx.check(isinstance(got, PeriodicStructure), f"{what}: a structure")
    ctx.check(sorted(got.site_ids) == list(range(n)), f"{what}: identifiers")
    ctx.check(len(got.sites()) == n and got.dim == s.dim, f"{what}: sites")
    ctx.check(tuple(got.lattice.periodic) == tuple(s.lattice.periodic), f"{what}: periodic directions")
    ctx.check([[float(x) for x in v] for v in got.lattice.vecs] == [[float(x) for x in v] for v in s.lattice.vecs], f"{what}: lattice")
    for i in range(n):
        a, b = got.get_site(i), s.get_site(i)
        ctx.check(a is not None and a[SITE_ID] == i, f"{what}: site {i}")
        ctx.check(AND(a[SITE_CLASS] == cls[i], got.site_class(i) == cls[i]), f"{what}: class")
        ctx.check(nearv(list(a[LOCATION]), list(b[LOCATION])), f"{what}: location")
        ctx.check(nearv(list(got.site_location(i)), list(s.site_location(i))), f"{what}: location")


@harness("C15", quick=[("line", 2, "json"), ("line-open", 2, "dict"), ("square", 2, "json"), ("rect-half", 2, "json"), ("skew", 1, "json"),
                       ("honeycomb", 1, "json"), ("honeycomb", 1, "dict"), ("slab", 1, "json")],
         thorough=[("honeycomb", 2, "json"), ("skew", 2, "dict"), ("lower", 2, "json"), ("cube", 2, "json"), ("thirds", 2, "json"),
                   ("rect-open", 2, "json"), ("skew-half", 2, "json"), ("triclinic", 1, "json"), ("rect-half", 3, "json")],
         bounds="up to 3 sites of any classes anywhere on the cell's grid (steps of 1/3 to 1/8), through a dictionary or JSON; looked up "
                "anywhere on the grid up to a cell away")
def structures(ctx, cfg):
    name, n, how = cfg
    s, vecs, per, den, ks, cls = _filled(ctx, name, n)
    d = s.as_dict()
    got = PeriodicStructure.from_dict(_through(d, how))
    _same_structure(ctx, got, s, cls, "loaded")
    for t in (s, got):
        for i in range(n):
            loc = t.site_location(i)
            ctx.check(nearv(list(loc + loc), [x + x for x in loc]), "locations still are vectors")
    kr = grid_point(ctx, "r", len(vecs), -1, 2, den)
    r = cart(vecs, [ctx.scaled(x, den) for x in kr])
    want = s.id_at(r)
    ctx.check(got.id_at(r) == want, "looked up by location alike")
    ctx.check(want is None or got.class_at(r) == cls[want], "looked up by location alike")
    # one's own again
    again = PeriodicStructure.from_dict(_through(got.as_dict(), how))
    _same_structure(ctx, again, s, cls, "loaded twice")
    ctx.check(again.id_at(r) == want, "looked up by location alike, loaded twice")
    got.add_site("D", cart(vecs, [0.0625 + 0.0 * i for i in range(len(vecs))]))
    ctx.check(got.site_ids == list(range(n + 1)) and len(s.sites()) == n, "a structure of its own, identifiers going on")
    ctx.observe(want)


@harness("C15", quick=[(12, "json"), (12, "dict"), (103, "json")], thorough=[(1003, "json")],
         bounds="12 or 103 (thorough: 1003) sites, one of them of any of three classes; through a dictionary or JSON")
def many_sites(ctx, cfg):
    n, how = cfg
    s = PeriodicStructure(Lattice([(n, 0), (0, 2)], (True, False)))
    k = ctx.pick("k", [0, n // 2, n - 1])
    odd = ctx.enum("c", ("A", "B", ""))
    for i in range(n):
        s.add_site(odd if i == k else "B", (float(i), 1.5 if i % 2 else 0.25))
    got = PeriodicStructure.from_dict(_through(s.as_dict(), how))
    ctx.check(list(got.site_ids) == list(range(n)), "identifiers in order")
    ctx.check([x[SITE_ID] for x in got.sites()] == [x[SITE_ID] for x in s.sites()], "sites in order")
    for i in range(n):
        ctx.check(got.class_at((i + n, 1.5 if i % 2 else 0.25)) == (odd if i == k else "B"), "classes by location")
        ctx.check(nearv(list(got.site_location(i)), (i, 1.5 if i % 2 else 0.25)), "locations")
    ctx.check([x[SITE_ID] for x in got.sites(site_class="B")] == [x[SITE_ID] for x in s.sites(site_class="B")], "sites of a class")
    ctx.check(got.add_site("Z", (0.5, 1.0)) == n, "identifiers go on")


@harness("C15", quick=["dict", "json", "file"],
         bounds="two sites whose classes are any of a list of texts, numbers and truth values, with a value of the same kind; through a "
                "dictionary, JSON or a file")
def class_names(ctx, how):
    from pylattica.core.simulation import Simulation

    names = ["A", "1", "", "\u03b1-Fe", 'a"b\n', 1, 0, -2.5, True]
    cls = [ctx.pick("one", names), ctx.pick("two", names)]
    s = PeriodicStructure(Lattice([(2, 0), (0, 2)], (True, False)))
    for i, c in enumerate(cls):
        s.add_site(c, (0.5 + i, 0.5))
    st = SimulationState()
    v = ctx.int("v")
    for i, c in enumerate(cls):
        st.set_site_state(i, {"own": c, "x": v})
    if how == "file":
        path = os.path.join(ctx.tmpdir(), "sim.json")
        Simulation(st, s).to_file(path)
        sim = Simulation.from_file(path)
    else:
        sim = Simulation.from_dict(_through(Simulation(st, s).as_dict(), how))
    for t in (s, sim.structure):
        for i, c in enumerate(cls):
            got = t.site_class(i)
            ctx.check(type(got) is type(c) and got == c, "class")
            ctx.check([x[SITE_ID] for x in t.sites(site_class=c)] == [j for j in range(2) if cls[j] == c], "sites of a class")
    for i, c in enumerate(cls):
        got = sim.state_at((0.5 + i, 0.5))
        ctx.check(type(got["own"]) is type(c) and got["own"] == c, "value")
        ctx.check(same(got["x"], v), "value")


@harness("C15", quick=["dict", "json"], bounds="3 sites of any ids, any values, nested ones included; changes to either side")
def states(ctx, how):
    ids = [ctx.int(f"i{k}") for k in range(3)]
    for i in range(3):
        for j in range(i):
            ctx.assume(ids[i] != ids[j])
    st, ref = make_state(ctx, ids, keys=("x", "y"))
    v = ctx.int("v")
    m, b = ctx.maybe("m"), ctx.bool("b")

    def more():
        return {"list": [v, None, "s", [True, v]], "map": {"k": v, "n": {"m": [v]}}, "none": m, "b": b}
    st.set_site_state(ids[1], more())
    ref.write(ids[1], more())
    bare = ctx.int("bare")
    for i in ids:
        ctx.assume(bare != i)
    st.set_site_state(bare, {})
    ref.write(bare, {})
    for key in ("deep", "7", "", "-3"):
        st.set_general_state({key: {"q": [v]}})
        ref.write_general({key: {"q": [v]}})
    st.set_site_state(ids[0], {"12": v, "": None, "a b": {"3": v}})
    ref.write(ids[0], {"12": v, "": None, "a b": {"3": v}})
    got = SimulationState.from_dict(_through(st.as_dict(), how))
    ctx.check(isinstance(got, SimulationState), "a state")
    state_is(ctx, got, ref, "loaded")
    ctx.check(got == st, "equal to the saved one")
    state_is(ctx, st, ref, "the saved one")
    w = ctx.int("w")
    got.set_site_state(ids[0], {"x": w})
    got.get_site_state(ids[1])["list"].append(w)
    got.get_site_state(ids[1])["map"]["n"]["m"].append(w)
    got.get_general_state()["deep"]["q"].append(w)
    got.set_general_state({"g": w})
    state_is(ctx, st, ref, "the saved one after changes to the loaded one")




@harness("C15", quick=[("square", "file"), ("rect-half", "dict"), ("honeycomb", "file"), ("line", "json")], thorough=[("slab", "file"), ("skew", "file")],
         bounds="two sites anywhere on the cell's grid, with any values, through a file, a dictionary or JSON; looked up anywhere on "
                "the grid up to a cell away")
def simulations(ctx, cfg):
    name, how = cfg
    s, vecs, per, den, ks, cls = _filled(ctx, name, 2 if name != "honeycomb" else 1)
    st, ref = make_state(ctx, list(range(len(cls))), keys=("x",))
    sim = Simulation(st, s)
    if how == "file":
        path = os.path.join(ctx.tmpdir(), "sim.json")
        # over what an earlier, larger one left there
        big = PeriodicStructure(Lattice([(9, 0), (0, 9)], True))
        before = SimulationState()
        for i in range(6):
            big.add_site("Z", (i + 0.5, 0.5))
            before.set_site_state(i, {"y": "something long" * 5})
        Simulation(before, big).to_file(path)
        sim.to_file(path)
        got = Simulation.from_file(path)
    else:
        got = Simulation.from_dict(_through(sim.as_dict(), how))
    state_is(ctx, got.state, ref, "loaded")
    state_is(ctx, sim.state, ref, "the saved one")
    _same_structure(ctx, got.structure, s, cls, "loaded")
    kr = grid_point(ctx, "r", len(vecs), -1, 2, den)
    r = cart(vecs, [ctx.scaled(x, den) for x in kr])
    i = s.id_at(r)
    want = sim.state_at(r)
    ctx.check(same(want, None if i is None else ref.of(i)), "the state at a location")
    ctx.check(same(got.state_at(r), want), "the state at a location, loaded")
