"""A result's steps."""
from symx.api import AND, harness, same
from props.util import GENERAL, SITES, RefState, make_state, state_is

from pylattica.core.simulation_result import SimulationResult

FORMS = ["sites", "full", "only-sites", "only-general", "empty", "full-empty", "new", "blank", "blank-site", "odd-names"]


def _update(ctx, name, form, ids):
    """An update, the values per site and the general values it sets."""
    v, w = ctx.int(name + "v"), ctx.int(name + "w")
    t = ids[-1] if form == "new" else ids[ctx.size(name + "t", 0, 1)]
    if form in ("sites", "new"):
        return {t: {"x": v, "n": w}}, [(t, {"x": v, "n": w})], {}
    if form == "full":
        return {SITES: {ids[0]: {"x": v}, ids[1]: {"y": v}}, GENERAL: {"g": w, "h": v}}, \
            [(ids[0], {"x": v}), (ids[1], {"y": v})], {"g": w, "h": v}
    if form == "only-sites":
        return {SITES: {t: {"y": w}}}, [(t, {"y": w})], {}
    if form == "only-general":
        return {GENERAL: {"g": v}}, [], {"g": v}
    if form == "odd-names":
        vals = {"1": v, "": {"2": [w, {"3": v}]}, "x y": w}
        general = {"7": v, "-1": w, "": v, "1.5": {"4": w}}
        return {SITES: {t: vals}, GENERAL: general}, [(t, vals)], general
    if form == "blank":
        # a site without values
        return {SITES: {ids[-1]: {}}}, [(ids[-1], {})], {}
    if form == "blank-site":
        return {ids[-1]: {}}, [(ids[-1], {})], {}
    if form == "full-empty":
        return {SITES: {}, GENERAL: {}}, [], {}
    return {}, [], {}


def history(ctx, forms, symbolic=True):
    """A result with one update per form, and the states it stands for."""
    ids = [ctx.int(f"id{i}", -2, 99) for i in range(3)] if symbolic else [4, 0, 7]
    if symbolic:
        for i in range(3):
            for j in range(i):
                ctx.assume(ids[i] != ids[j])
    st, ref = make_state(ctx, ids[:2], keys=("x", "y"))
    res = SimulationResult(st)
    refs = [ref]
    updates = []
    for n, f in enumerate(forms):
        u, sites, general = _update(ctx, f"u{n}", f, ids)
        ref = ref.copy()
        for s, vals in sites:
            ref.write(s, vals)
        ref.write_general(general)
        refs.append(ref)
        updates.append(u)
    return ids, res, refs, updates


def _check_all(ctx, res, refs, what):
    n = len(refs)
    ctx.check(len(res) == n, f"{what}: one more step than updates")
    its = list(res.steps())
    ctx.check(len(its) == n, f"{what}: iterating gives every step")
    for t in range(n):
        state_is(ctx, its[t], refs[t], f"{what}: step {t} by iterating")
    for t in range(n - 1, -1, -1):
        state_is(ctx, res.get_step(t), refs[t], f"{what}: step {t} by number")
    state_is(ctx, res.last_step, refs[-1], f"{what}: last step")
    state_is(ctx, res.first_step, refs[0], f"{what}: first step")
    state_is(ctx, res.initial_state, refs[0], f"{what}: initial state")


SEQS = [(f,) for f in FORMS] + [("sites", "full"), ("full", "only-general", "sites"), ("only-sites", "empty", "new"),
                                ("new", "full-empty", "full"), ("sites", "sites", "sites", "new"),
                                ("odd-names", "full", "odd-names")]


@harness("C13", quick=SEQS, thorough=[(a, b, c) for a in FORMS[:4] + ["new"] for b in FORMS[:4] for c in ("sites", "full", "new")],
         bounds="up to 4 updates in the formats results hold, for any two sites and a new one with any ids and values; steps "
                "obtained in every way, before and after caching at any interval from 1 to 5")
def replay(ctx, forms):
    ids, res, refs, updates = history(ctx, forms)
    for u in updates:
        res.add_step(u)
    _check_all(ctx, res, refs, "before caching")
    k = ctx.size("interval", 1, len(forms) + 1)
    res.load_steps(k) if k > 1 else res.load_steps()
    _check_all(ctx, res, refs, "after caching")
    res.load_steps(1 if k > 1 else 2)
    _check_all(ctx, res, refs, "after caching again")


@harness("C13", quick=[("sites", "full", "new"), ("full", "sites", "only-general")],
         thorough=[("sites", "full", "new", "only-sites"), ("new", "sites", "full", "sites")],
         bounds="3 (thorough 4) updates for any ids and values; steps obtained, cached at any interval or set as output at any time while "
                "updates are added")
def growing(ctx, forms):
    ids, res, refs, updates = history(ctx, forms, symbolic=False)
    got = [(0, res.get_step(0))]
    for n, u in enumerate(updates):
        what = ctx.pick(f"do{n}", ["nothing", "load", "load2", "steps", "last", "output"])
        if what == "load":
            res.load_steps()
        elif what == "load2":
            res.load_steps(interval=2)
        elif what == "steps":
            got.extend(enumerate(res.steps()))
        elif what == "last":
            got.append((n, res.last_step))
        elif what == "output":
            # what a run ends with is not what steps are made of
            res.set_output(res.get_step(n))
        res.add_step(u)
    _check_all(ctx, res, refs, "after all updates")
    for t, s in got:
        state_is(ctx, s, refs[t], f"step {t} obtained earlier")


@harness("C13", quick=[2, 3], thorough=[5],
         bounds="2..3 (thorough 5) updates of one site with any values; each obtained step changed by the caller afterwards, cached "
                "steps excepted")
def handed_out_steps_are_separate(ctx, n):
    ids, res, refs, updates = history(ctx, ["sites"] * n, symbolic=False)
    for u in updates:
        res.add_step(u)
    if ctx.bool("iterate"):
        its = list(res.steps())
    else:
        its = [res.get_step(t) for t in range(n + 1)]
    junk = ctx.int("junk")
    k = ctx.size("changed", 0, n)
    its[k].set_site_state(ids[0], {"x": junk, "junk": 1})
    its[k].set_general_state({"g": junk})
    its[k].get_site_state(ids[1])["y"] = junk
    for t in range(n + 1):
        if t != k:
            state_is(ctx, its[t], refs[t], f"step {t} after a change to step {k}")
    _check_all(ctx, res, refs, f"after a change to step {k}")


@harness("C13", quick=[2, 4], thorough=[7],
         bounds="2 and 4 (thorough 7) updates of any values, cached at any interval; each obtained step changed by the caller afterwards")
def cached_steps_changed(ctx, n):
    ids, res, refs, updates = history(ctx, ["full", "sites", "only-general", "sites"][:n] + ["sites"] * (n - 4), symbolic=False)
    for u in updates:
        res.add_step(u)
    res.load_steps(ctx.size("interval", 1, n + 1))
    junk = ctx.int("junk")
    k = ctx.size("changed", 0, n)
    s = res.get_step(k)
    s.set_site_state(ids[0], {"x": junk, "junk": 1})
    s.get_site_state(ids[1])["y"] = junk
    s.set_general_state({"g": junk})
    # what was kept may be the object handed out, but never the initial state
    state_is(ctx, res.initial_state, refs[0], f"initial state after a change to step {k}")


@harness("C13", quick=[3, 12], thorough=[40], bounds="3 and 12 (thorough 40) updates of any values, some of them lists; each step changed "
         "by the caller while going through the steps, or by number")
def changed_on_the_way(ctx, n):
    from pylattica.core.simulation_state import SimulationState

    v = [ctx.int(f"v{i}") for i in range(2)]
    st = SimulationState()
    st.set_site_state(0, {"x": v[0], "l": [v[1]]})
    st.set_site_state(1, {"x": v[1], "l": [v[0], {"a": v[0]}]})
    st.set_general_state({"g": [v[0]]})
    res = SimulationResult(st)
    for t in range(1, n + 1):
        res.add_step({t % 2: {"x": v[t % 2] + t}} if t % 3 else {SITES: {1: {"y": v[0] + t}}, GENERAL: {"h": v[1] + t}})

    def want(t):
        x = [([v[0]] + [v[k % 2] + k for k in range(1, t + 1) if k % 3 and k % 2 == 0])[-1],
             ([v[1]] + [v[k % 2] + k for k in range(1, t + 1) if k % 3 and k % 2])[-1]]
        third = t - t % 3
        return x, third

    def is_step(s, t, what):
        x, third = want(t)
        a = {"_site_id": 0, "x": x[0], "l": [v[1]]}
        b = {"_site_id": 1, "x": x[1], "l": [v[0], {"a": v[0]}]}
        g = {"g": [v[0]]}
        if third:
            b["y"], g["h"] = v[0] + third, v[1] + third
        ctx.check(same(s.get_site_state(0), a), f"{what}: values")
        ctx.check(same(s.get_site_state(1), b), f"{what}: values")
        ctx.check(same(s.get_general_state(), g), f"{what}: general values")

    def spoil(s):
        s.get_site_state(0)["l"].append(7)
        s.get_site_state(1)["l"][1]["a"] = 7
        s.get_general_state()["g"].append(7)
        s.set_site_state(0, {"x": 7, "z": 7})
        s.set_site_state(9, {"x": 7})
        s.set_general_state({"h": 7})

    how = ctx.pick("how", ["iterating", "numbers", "backwards", "last"])
    if how == "iterating":
        for t, s in enumerate(res.steps()):
            is_step(s, t, f"step {t}")
            spoil(s)
    elif how == "last":
        spoil(res.last_step)
    else:
        for t in range(n + 1) if how == "numbers" else range(n, -1, -1):
            s = res.get_step(t)
            is_step(s, t, f"step {t}")
            spoil(s)
    for t, s in enumerate(res.steps()):
        is_step(s, t, f"step {t} afterwards")
    is_step(res.get_step(n - 1), n - 1, "the step before the last afterwards")
    is_step(res.last_step, n, "last step afterwards")
    is_step(res.first_step, 0, "first step afterwards")


def long_history(ctx, n, sites):
    """A result with n updates, most of one site or general value each, and the values after each."""
    from pylattica.core.simulation_state import SimulationState

    st = SimulationState()
    vals = {i: ctx.int(f"s{i}") if i < 3 else i for i in range(sites)}
    for i, x in vals.items():
        st.set_site_state(i, {"x": x})
    st.set_general_state({"g": 0})
    res = SimulationResult(st)
    marks = [ctx.int(f"m{i}") for i in range(4)]
    g, hist = 0, [(dict(vals), 0)]
    updates = []
    for t in range(n):
        v = marks[t % 4] + t if t % 5 != 4 else t
        s = (3 * t) % sites if t % 11 != 10 else sites + t
        if t % 7 == 3:
            g = v
            updates.append({GENERAL: {"g": v}})
        elif t % 7 == 5:
            g = v
            vals[s] = v
            updates.append({SITES: {s: {"x": v}}, GENERAL: {"g": v}})
        elif t % 13 == 12:
            updates.append({})
        else:
            vals[s] = v
            updates.append({s: {"x": v}})
        hist.append((dict(vals), g))
    return res, updates, hist


def holds(ctx, state, want, what):
    vals, g = want
    ctx.check(state.size == len(vals), f"{what}: sites")
    ctx.check(AND([AND(state.get_site_state(i) is not None, same(state.get_site_state(i), {"x": x, "_site_id": i}))
                   for i, x in vals.items()]), f"{what}: values")
    ctx.check(state.get_general_state()["g"] == g, f"{what}: general values")


@harness("C13", quick=[(30, 2), (140, 5), (270, 3), (12, 300)], thorough=[(1100, 4), (520, 130), (60, 1100)],
         bounds="up to 270 (thorough 1100) updates, or 300 (1100) sites, a few values of which are any numbers; every step by iterating, "
                "several by number, before and after caching at any of a few intervals")
def long(ctx, cfg):
    n, sites = cfg
    res, updates, hist = long_history(ctx, n, sites)
    early = n // 2
    for t, u in enumerate(updates):
        if t == early:
            holds(ctx, res.last_step, hist[t], "last step while growing")
        res.add_step(u)
    some = sorted({1, 2, 9, 10, 11, n // 3, n // 2, n - 1, n, min(n, 127), min(n, 128), min(n, 101)})

    def all_of_it(what):
        ctx.check(len(res) == n + 1, f"{what}: length")
        seen = 0
        for t, s in enumerate(res.steps()):
            holds(ctx, s, hist[t], f"{what}: step {t} by iterating")
            seen += 1
        ctx.check(seen == n + 1, f"{what}: every step")
        for t in reversed(some):
            holds(ctx, res.get_step(t), hist[t], f"{what}: step {t} by number")
        holds(ctx, res.last_step, hist[-1], f"{what}: last step")
        holds(ctx, res.first_step, hist[0], f"{what}: first step")

    all_of_it("before caching")
    k = ctx.pick("interval", [1, 3, 10, n - 1, n + 5])
    res.load_steps(k)
    all_of_it("after caching")
    if k == 3:
        more = ctx.int("more")
        res.add_step({0: {"x": more}})
        ctx.check(res.last_step.get_site_state(0)["x"] == more, "a step added after caching")
        holds(ctx, res.get_step(n), hist[n], "the step before it")
