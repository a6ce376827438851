"""Simulation states: updates overlay, copies are independent."""
from symx.api import AND, NOT, OR, harness, same
from props.util import GENERAL, SITES, SITE_ID, RefState, make_state, state_is

from pylattica.core.simulation_state import SimulationState


def _values(ctx, name, keys):
    """A site update touching any subset of keys, any values (None included)."""
    up = {}
    for k in keys:
        if ctx.bool(f"{name}.{k}?"):
            up[k] = ctx.maybe(f"{name}.{k}")
    return up


@harness("C08", quick=["set", "batch-sites", "batch-full", "batch-nogeneral", "batch-nosites"],
         thorough=["mixed"],
         bounds="3 updates over any integer site ids, 2 keys, any integer or None values")
def overlay(ctx, form):
    st, ref = SimulationState(), RefState()
    n = 3
    ids = [ctx.int(f"id{i}") for i in range(n)]
    g0, x0 = ctx.int("g0"), ctx.int("x0")
    st.set_general_state({"g": g0, "h": None})
    ref.write_general({"g": g0, "h": None})
    st.set_site_state(ids[0], {"x": x0})
    ref.write(ids[0], {"x": x0})
    forms = {"set": ["set"] * 2, "mixed": ["set", "batch-full", "batch-sites"]}.get(form, [form] * 2)
    for n, f in enumerate(forms):
        i, j = ids[1], ids[2]
        a = _values(ctx, f"u{n}", ("x", "y"))
        g = {"g": ctx.maybe(f"u{n}g"), "k": 1}
        if f == "set":
            st.set_site_state(ids[n % 2 + 1], a)
            ref.write(ids[n % 2 + 1], a)
            st.set_general_state(g)
            ref.write_general(g)
            continue
        b = {"x": ctx.int(f"u{n}b")}
        ctx.assume(i != j)
        sites = {i: a, j: b}
        if n == 1:
            ids[1], ids[2] = ids[0], ids[1]
        if f == "batch-sites":
            st.batch_update(sites)
        elif f == "batch-full":
            st.batch_update({SITES: sites, GENERAL: g})
        elif f == "batch-nogeneral":
            st.batch_update({SITES: sites})
        elif f == "batch-nosites":
            st.batch_update({GENERAL: g})
        if f != "batch-nosites":
            ref.write(i, a)
            ref.write(j, b)
        if f in ("batch-full", "batch-nosites"):
            ref.write_general(g)
    state_is(ctx, st, ref, "after updates")
    q = ctx.int("absent")
    for s, _ in ref.sites:
        ctx.assume(q != s)
    ctx.check(st.get_site_state(q) is None, "an unknown site has no state")
    ctx.observe(st.site_ids())
    ctx.observe(st.get_general_state())


@harness("C08", quick=["copy", "ctor"],
         bounds="2 sites with any integer ids, list-valued and integer values, an arbitrary later change "
                "to either side")
def independent_copies(ctx, how):
    a, b = ctx.int("a"), ctx.int("b")
    ctx.assume(a != b)
    v, w = ctx.int("v"), ctx.int("w")
    st = SimulationState()
    st.set_site_state(a, {"x": v, "hist": [v]})
    st.set_site_state(b, {"x": w, "d": {"n": w}})
    st.set_general_state({"t": v, "log": [w]})
    if how == "copy":
        cp = st.copy()
    else:
        src = {SITES: {a: {"x": v, "hist": [v]}, b: {"x": w, "d": {"n": w}}},
               GENERAL: {"t": v, "log": [w]}}
        cp = SimulationState(src)
        src[SITES][a]["x"] = v + 1
        src[SITES][a]["hist"].append(0)
        src[GENERAL]["t"] = v + 1
        src[GENERAL]["log"].append(0)
        del src[SITES][b]
    if how == "copy":
        ctx.check(cp == st, "a copy equals its original")
    first, second = (st, cp) if ctx.bool("change original") else (cp, st)
    n = ctx.int("n")
    tgt = ctx.int("tgt")
    first.set_site_state(tgt, {"x": n})
    first.get_site_state(a)["hist"].append(n)
    first.get_site_state(b)["d"]["n"] = n
    first.set_general_state({"t": n})
    first.get_general_state()["log"].append(n)
    ctx.check(second.size == 2, "the other side keeps its sites")
    ctx.check(same(second.get_site_state(a)["x"], v), "the other side keeps its values")
    ctx.check(same(second.get_site_state(b)["x"], w), "the other side keeps its values")
    ctx.check(same(second.get_site_state(a)["hist"], [v]), "the other side keeps nested lists")
    ctx.check(same(second.get_site_state(b)["d"]["n"], w), "the other side keeps nested maps")
    ctx.check(same(second.get_general_state()["t"], v), "the other side keeps general values")
    ctx.check(same(second.get_general_state()["log"], [w]), "the other side keeps nested general values")


@harness("C08", bounds="2 sites with any integer ids and any integer values")
def updates_are_not_aliased(ctx, _):
    a = ctx.int("a")
    b = ctx.int("b")
    ctx.assume(a != b)
    v, n = ctx.int("v"), ctx.int("n")
    up = {"x": v}
    g = {"t": v}
    st = SimulationState()
    st.set_site_state(a, up)
    st.set_site_state(b, up)
    st.set_general_state(g)
    st.set_site_state(a, {"x": n, "y": n})
    st.set_general_state({"t": n})
    ctx.check(same(up, {"x": v}), "an update passed in stays as it was")
    ctx.check(same(g, {"t": v}), "a general update passed in stays as it was")
    ctx.check(same(st.get_site_state(b)["x"], v), "sites given the same update stay separate")
    ctx.check(st.get_site_state(b).get("y") is None, "sites given the same update stay separate")
    up["x"] = n + 1
    g["t"] = n + 1
    ctx.check(same(st.get_site_state(a)["x"], n), "a state does not follow later changes of the update")
    ctx.check(same(st.get_general_state()["t"], n), "a state does not follow later changes of the update")


@harness("C08", bounds="2 states of one site of any integer id each, any integer values, and another site in one or both; compared from either side")
def equality(ctx, _):
    s, t = SimulationState(), SimulationState()
    a, b = ctx.int("a"), ctx.int("b")
    v, w, g, h = (ctx.int(n) for n in "vwgh")
    s.set_site_state(a, {"x": v})
    t.set_site_state(b, {"x": w})
    s.set_general_state({"t": g})
    t.set_general_state({"t": h})
    want = AND(a == b, v == w, g == h)
    more = ctx.pick("more", ["", "s", "t", "both"])
    if more:
        # a site that one of them has on top, or both have
        c = ctx.int("c")
        ctx.assume(AND(c != a, c != b))
        vals = {"x": 1} if ctx.pick("filled", [True, False]) else {}
        for u in (s, t):
            if more == "both" or more == ("s" if u is s else "t"):
                u.set_site_state(c, vals)
        want = AND(want, more == "both")
    got = s == t if ctx.pick("side", [True, False]) else t == s
    ctx.check(OR(AND(got, want), AND(NOT(got), NOT(want))), "equal exactly when contents are equal")


@harness("C08", quick=["sites", "keys", "general", "number", "kinds"],
         bounds="2 states of 2 sites with any values, filled in another order or with the same numbers of other types")
def same_contents(ctx, how):
    v, w = ctx.int("v"), ctx.int("w")
    s, t = SimulationState(), SimulationState()
    for u, second in ((s, False), (t, True)):
        ids = [3, 5]
        if second and how == "sites":
            ids = [5, 3]
        keys = [("x", v), ("y", w)]
        if second and how == "keys":
            keys.reverse()
        if second and how == "number":
            keys = [(k, x * 1.0) for k, x in keys]
        for i in ids:
            u.set_site_state(i, dict(keys))
            if how == "kinds":
                u.set_site_state(i, {"z": 1.0 if second else True})
        general = [("g", 1), ("h", v)]
        if second and how == "general":
            general.reverse()
        u.set_general_state(dict(general))
    ctx.check(s == t, "states of the same contents are equal")
    ctx.check(t == s, "states of the same contents are equal")
    ctx.check(s.copy() == t, "and so is a copy")
    (s if ctx.bool("first") else t).set_site_state(5, {"x": ctx.int("n")})
    a, b = s.get_site_state(5)["x"], t.get_site_state(5)["x"]
    got = s == t
    ctx.check(OR(AND(got, a == b), AND(NOT(got), NOT(a == b))), "equal exactly when contents are equal")


@harness("C08", quick=[1, 3], thorough=[6], bounds="up to 6 sites per dimension")
def from_struct(ctx, n):
    from pylattica.structures.square_grid.structure_builders import SimpleSquare2DStructureBuilder

    size = ctx.size("size", 1, n)
    st = SimpleSquare2DStructureBuilder().build(size)
    s = SimulationState.from_struct(st)
    ctx.check(s.size == size * size, "one entry per site")
    ctx.check(len(st.site_ids) == s.size, "one entry per site")
    for i in st.site_ids:
        ctx.check(s.get_site_state(i) == {SITE_ID: i}, "an empty entry for every site")


@harness("C08", quick=[(300, 3), (40, 140), (1, 300)], thorough=[(5000, 2), (3, 1100)],
         bounds="up to 300 (thorough 5000) sites or 300 (1100) updates in a row, a few of the values any numbers, in every format; copies and "
                "equality of the state they lead to")
def large(ctx, cfg):
    n, rounds = cfg
    st, ref = SimulationState(), RefState()
    v = [ctx.int(f"v{i}") for i in range(4)]
    ids = [7 * i - 3 for i in range(n)]
    vals, general = {}, {}
    every = {i: {"x": v[k % 4] + k} for k, i in enumerate(ids)}
    st.batch_update(every)
    for i, up in every.items():
        vals[i] = {SITE_ID: i, **up}
    for t in range(rounds):
        i, x = ids[(5 * t) % n], v[t % 4] - t
        if t % 3 == 0:
            st.set_site_state(i, {f"k{t}": x})
            vals[i][f"k{t}"] = x
        elif t % 3 == 1:
            st.batch_update({SITES: {j: {"y": x} for j in ids}, GENERAL: {f"g{t}": x}})
            for j in ids:
                vals[j]["y"] = x
            general[f"g{t}"] = x
        else:
            st.batch_update({j: {"x": x} for j in {i, ids[-1]}})
            vals[i]["x"] = vals[ids[-1]]["x"] = x
            st.set_general_state({"t": x})
            general["t"] = x

    def holds(s, what, but=()):
        ctx.check(s.size == n and sorted(s.site_ids()) == sorted(ids), f"{what}: sites")
        ctx.check(AND([same(s.get_site_state(i), vals[i]) for i in ids if i not in but]), f"{what}: values")
        ctx.check(same(s.get_general_state(), general), f"{what}: general values")

    holds(st, "after the updates")
    cp = st.copy()
    ctx.check(cp == st, "a copy equals its original")
    if ctx.bool("values within values"):
        q = ctx.int("q")
        for i in (ids[0], ids[-1]):
            st.set_site_state(i, {"l": [q, {"a": q}]})
        st.set_general_state({"l": [q]})
        mine, theirs = st.copy(), st.copy()
        for i in (ids[0], ids[-1]):
            mine.get_site_state(i)["l"][1]["a"] = 3
            mine.get_site_state(i)["l"].append(q)
        mine.get_general_state()["l"].append(q)
        for s in (st, theirs):
            ctx.check(AND([same(s.get_site_state(i)["l"], [q, {"a": q}]) for i in (ids[0], ids[-1])]), "a copy shares nothing")
            ctx.check(same(s.get_general_state()["l"], [q]), "a copy shares nothing")
        return
    k = ctx.pick("changed", [ids[0], ids[n // 2], ids[-1]])
    first, second = (cp, st) if ctx.bool("copy changed") else (st, cp)
    m = ctx.int("m")
    first.set_site_state(k, {"x": m})
    holds(second, "the other side after a change")
    holds(first, "the changed side", but=(k,))
    same_now = vals[k]["x"] == m
    got = cp == st
    ctx.check(OR(AND(got, same_now), AND(NOT(got), NOT(same_now))), "equal exactly when contents are equal")
