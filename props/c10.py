"""Synchronous runs."""
from symx.api import AND, OR, count, harness, same
from props.util import GENERAL, SITES, SITE_ID, RefState, make_state, state_is

from pylattica.core.basic_controller import BasicController
from pylattica.core.runner import SynchronousRunner
from pylattica.core.simulation_result import SimulationResult


class Rule(BasicController):
    """Each site takes over what its source site had, and adds to it; logs what it saw."""

    def __init__(self, sites, source, add, shape, mute=None):
        self.sites, self.source, self.add, self.shape, self.mute = sites, source, add, shape, mute
        self.log = []
        self.started = []

    def pre_run(self, initial_state):
        self.started.append(len(self.log))

    def get_state_update(self, site_id, prev_state):
        seen = [dict(prev_state.get_site_state(s)) for s in self.sites]
        self.log.append((site_id, seen, dict(prev_state.get_general_state())))
        n = [i for i, s in enumerate(self.sites) if site_id == s][0]
        x = seen[self.source[n]]["x"] + self.add[n]
        if self.mute is not None and n == self.mute:
            return None
        if self.shape == "own":
            return {"x": x}
        if self.shape == "sites":
            return {site_id: {"x": x, "from": self.source[n]}}
        if self.shape == "full":
            return {SITES: {site_id: {"x": x}}, GENERAL: {"g": x} if n == 0 else {}}
        # the next site over
        return {self.sites[self.source[n]]: {"x": seen[n]["x"] + self.add[n]}}


def next_step(ref, rule):
    """The reference: all updates computed from ref, then written."""
    out = ref.copy()
    for n, s in enumerate(rule.sites):
        if rule.mute is not None and n == rule.mute:
            continue
        k = rule.source[n]
        x = ref.of(rule.sites[k])["x"] + rule.add[n]
        if rule.shape == "other":
            out.write(rule.sites[k], {"x": ref.of(s)["x"] + rule.add[n]})
        else:
            out.write(s, {"x": x, **({"from": k} if rule.shape == "sites" else {})})
        if rule.shape == "full" and n == 0:
            out.write_general({"g": x})
    return out


def setting(ctx, n, shape, symbolic_ids):
    if symbolic_ids:
        ids = [ctx.int(f"id{i}", -1, 99) for i in range(n)]
        for i in range(n):
            for j in range(i):
                ctx.assume(ids[i] != ids[j])
    else:
        ids = list(range(n))
    st, ref = make_state(ctx, ids, keys=("x", "y"))
    if shape == "other":
        source = [(i + ctx.size("shift", 0, n - 1)) % n for i in range(1)]
        source = [(i + source[0]) % n for i in range(n)]
    else:
        source = [ctx.size(f"src{i}", 0, n - 1) for i in range(n)]
    add = [ctx.int(f"add{i}", -3, 3) for i in range(n)]
    mute = ctx.pick("mute", [None] + list(range(n))[:2])
    return ids, st, ref, Rule(ids, source, add, shape, mute)


@harness("C10", quick=[(2, 2, "own"), (3, 2, "own"), (2, 3, "sites"), (2, 2, "full"), (3, 2, "other"), (1, 3, "own"), (2, 0, "own"), (2, 6, "own"), (3, 3, "full")],
         thorough=[(3, 5, "own"), (4, 2, "own"), (3, 4, "sites"), (4, 3, "other"), (2, 12, "full")],
         bounds="1..3 (thorough 4) sites with any ids, up to 6 (thorough 12) steps; rules taking any other site's previous value plus any "
                "number, in each answer format, with a site that returns nothing or without")
def run(ctx, cfg):
    n, steps, shape = cfg
    ids, st, ref0, rule = setting(ctx, n, shape, n < 4)
    runner = SynchronousRunner()
    res = runner.run(st, rule, steps)
    refs = [ref0]
    for _ in range(steps):
        refs.append(next_step(refs[-1], rule))
    ctx.check(isinstance(res, SimulationResult), "a result")
    ctx.check(len(res) == steps + 1, "as many steps as asked for")
    ctx.check(len(rule.log) == steps * n, "one application per site and step")
    for t in range(steps):
        calls = rule.log[t * n:(t + 1) * n]
        for s in ids:
            ctx.check(count([s == c[0] for c in calls]) == 1, "every site once per step")
        for _, seen, general in calls:
            ctx.check(AND([same(v, refs[t].of(s)) for v, s in zip(seen, ids)]), "rules see the previous step")
            ctx.check(same(general, refs[t].general), "rules see the previous step's general values")
    ctx.check(rule.started == [0], "prepared once, before the first step")
    state_is(ctx, st, ref0, "the given state afterwards")
    state_is(ctx, res.first_step, ref0, "first step")
    state_is(ctx, res.initial_state, ref0, "initial state")
    for t in range(steps + 1):
        state_is(ctx, res.get_step(t), refs[t], f"step {t}")
    state_is(ctx, res.last_step, refs[-1], "last step")
    state_is(ctx, res.output, refs[-1], "output")
    ctx.observe([res.output.get_site_state(s)["x"] for s in ids])


@harness("C10", quick=[(2, 1), (2, 2), (2, 0)], thorough=[(3, 2)],
         bounds="2 (thorough 3) sites with any ids; two runs of one runner and controller of up to 2 steps each, the second from any "
                "other values; changes to every state handed out in between")
def again(ctx, cfg):
    n, steps = cfg
    ids, st, ref0, rule = setting(ctx, n, "sites", True)
    runner = SynchronousRunner()
    res = runner.run(st, rule, steps)
    refs = [ref0]
    for _ in range(steps):
        refs.append(next_step(refs[-1], rule))
    # the same again from the same state, then from another one
    state_is(ctx, runner.run(st, rule, steps).output, refs[-1], "a second run")
    first = [dict(res.initial_state.get_site_state(s)) for s in ids]
    ctx.check(AND([same(v, ref0.of(s)) for v, s in zip(first, ids)]), "the first run's start after a second run")
    w = ctx.int("w")
    st.set_site_state(ids[0], {"x": w})
    st.set_general_state({"g": w})
    ref2 = ref0.copy()
    ref2.write(ids[0], {"x": w})
    ref2.write_general({"g": w})
    res2 = runner.run(st, rule, 1)
    state_is(ctx, res2.last_step, next_step(ref2, rule), "a run from another state")
    for t in range(steps + 1):
        state_is(ctx, res.get_step(t), refs[t], f"step {t} of the first run afterwards")
    state_is(ctx, res.output, refs[-1], "output of the first run afterwards")
    # the output of a run is not the input of anything
    res.output.set_site_state(ids[-1], {"x": w, "junk": 1})
    for t in range(steps + 1):
        state_is(ctx, res.get_step(t), refs[t], f"step {t} after a change to the output")
    state_is(ctx, st, ref2, "the given state after a change to the output")


class _Lists(BasicController):
    """Values that are lists, longer at each step."""

    def __init__(self, v):
        self.v = v

    def get_state_update(self, site_id, prev_state):
        return {"h": prev_state.get_site_state(site_id)["h"] + [self.v + site_id]}


@harness("C10", quick=[1, 2], thorough=[3], bounds="list-valued states of 2 sites, any numbers, up to 2 (thorough 3) steps")
def nested_values(ctx, steps):
    from pylattica.core.simulation_state import SimulationState

    a, v = ctx.int("a"), ctx.int("v")
    st = SimulationState()
    st.set_site_state(0, {"h": [a]})
    st.set_site_state(1, {"h": []})
    res = SynchronousRunner().run(st, _Lists(v), steps)
    for t in range(steps + 1):
        s = res.get_step(t)
        ctx.check(same(s.get_site_state(0)["h"], [a] + [v] * t), "step values")
        ctx.check(same(s.get_site_state(1)["h"], [v + 1] * t), "step values")
    st.get_site_state(0)["h"].append(7)
    ctx.check(same(res.first_step.get_site_state(0)["h"], [a]), "the result does not follow changes of the given state")
    ctx.check(same(res.output.get_site_state(0)["h"], [a] + [v] * steps), "nor does the output")


class _Spreading(BasicController):
    """Every site adds its value to itself; the first also gives the next new site its first value."""

    def __init__(self, add, new):
        self.add, self.new, self.log = add, list(new), []

    def get_state_update(self, site_id, prev_state):
        ids = prev_state.site_ids()
        self.log.append((site_id, len(ids)))
        x = prev_state.get_site_state(site_id)["x"] + self.add
        if OR([site_id == i for i in self.new]) or not self.new or len(ids) > 3:
            return {"x": x}
        fresh = [n for n in self.new if prev_state.get_site_state(n) is None]
        return {site_id: {"x": x}, fresh[0]: {"x": x}} if fresh else {"x": x}


def _spread(ref, add, new):
    out = ref.copy()
    fresh = [n for n in new if ref.of(n) is None]
    for s, v in ref.sites:
        out.write(s, {"x": v["x"] + add})
        if fresh and not any(s == n for n in new):
            out.write(fresh[0], {"x": v["x"] + add})
    return out


@harness("C10", quick=[(1, 3), (2, 2)], thorough=[(1, 5)],
         bounds="one runner and controller over states of different sites one after the other; a rule that brings in up to 2 new sites "
                "while it runs; any values, up to 3 (thorough 5) steps")
def changing_sites(ctx, cfg):
    from pylattica.core.simulation_state import SimulationState

    n, steps = cfg
    runner = SynchronousRunner()
    ids = [4, 9][:n]
    new = [7, 2]
    add = ctx.int("add", -3, 3)
    st, ref = make_state(ctx, ids, keys=("x",))
    for round_ in range(2):
        rule = _Spreading(add, new if round_ == 0 else [])
        res = runner.run(st, rule, steps)
        refs = [ref]
        for _ in range(steps):
            refs.append(_spread(refs[-1], add, rule.new))
        for t in range(steps + 1):
            state_is(ctx, res.get_step(t), refs[t], f"run {round_}: step {t}")
        state_is(ctx, res.output, refs[-1], f"run {round_}: output")
        visited, at = [s for s, _ in rule.log], 0
        for t in range(steps):
            here = [s for s, _ in refs[t].sites]
            ctx.check(sorted(visited[at:at + len(here)]) == sorted(here), "every site of the state once per step")
            at += len(here)
        ctx.check(at == len(visited), "and no other")
        # the next state has other sites
        st, ref = SimulationState(), RefState()
        for k in (9, 1, 5):
            v = ctx.int(f"second{k}")
            st.set_site_state(k, {"x": v})
            ref.write(k, {"x": v})


class _Shifts(BasicController):
    """Every site takes over what the site `by` further on had, and adds to it."""

    def __init__(self, by, add, form):
        self.by, self.add, self.form, self.log = by, add, form, []

    def get_state_update(self, site_id, prev_state):
        self.log.append(site_id)
        x = prev_state.get_site_state((site_id + self.by) % prev_state.size)["x"] + self.add
        return {"x": x} if self.form == "own" else {site_id: {"x": x}}


@harness("C10", quick=[(350, 2, 1), (1100, 1, 7), (3, 140, 1), (1, 300, 0), (40, 12, 39)], thorough=[(5000, 2, 1), (2, 1200, 1)],
         bounds="up to 1100 (thorough 5000) sites, two of them with any values, or up to 300 (1200) steps; a rule moving values on by "
                "a few sites; every step of the result")
def large(ctx, cfg):
    from pylattica.core.simulation_state import SimulationState

    n, steps, by = cfg
    v, w, add = ctx.int("v"), ctx.int("w"), ctx.int("add", -3, 3)
    vals = list(range(n))
    for k, x in ((0, v), (n - 1, w)):
        vals[ctx.pick(f"k{k}", [k, n // 2]) if n > 2 else k] = x
    st = SimulationState()
    for i in range(n):
        st.set_site_state(i, {"x": vals[i]})
    rule = _Shifts(by, add, ctx.pick("form", ["own", "sites"]))
    res = SynchronousRunner().run(st, rule, steps)
    ctx.check(len(res) == steps + 1, "as many steps as asked for")
    ctx.check(rule.log == [i for _ in range(steps) for i in rule.log[:n]] and sorted(rule.log[:n]) == list(range(n)),
              "every site once per step")

    def at(t):
        return [vals[(i + t * by) % n] + t * add for i in range(n)]

    def holds(state, t, what):
        want = at(t)
        ctx.check(state.size == n, f"{what}: sites")
        ctx.check(AND([state.get_site_state(i)["x"] == want[i] for i in range(n)]), f"{what}: values")

    holds(res.output, steps, "output")
    its = list(res.steps())
    ctx.check(len(its) == steps + 1, "all steps")
    for t in range(steps + 1):
        holds(its[t], t, f"step {t}")
    for t in {0, 1, steps // 2, steps - 1, steps}:
        holds(res.get_step(t), t, f"step {t} by number")
    holds(st, 0, "the given state afterwards")


class _Filling(BasicController):
    """Every site counts what it has seen so far."""

    def __init__(self, add):
        self.add, self.log = add, []

    def get_state_update(self, site_id, prev_state):
        self.log.append(site_id)
        return {"x": (prev_state.get_site_state(site_id).get("x") or 0) + self.add}


@harness("C10", quick=[1, 3], bounds="3 sites of any ids of which any have no values, or only a None; any number added; up to 3 steps")
def without_values(ctx, steps):
    from pylattica.core.simulation_state import SimulationState

    ids = [ctx.int(f"id{i}", -1, 99) for i in range(3)]
    for i in range(3):
        for j in range(i):
            ctx.assume(ids[i] != ids[j])
    st, x = SimulationState(), []
    for n, i in enumerate(ids):
        kind = ctx.pick(f"site{n}", ["none", "nothing", "value"])
        v = ctx.int(f"v{n}")
        st.set_site_state(i, {} if kind == "none" else {"x": None} if kind == "nothing" else {"x": v})
        x.append(v if kind == "value" else 0)
    add = ctx.int("add")
    rule = _Filling(add)
    res = SynchronousRunner().run(st, rule, steps)
    ctx.check(len(rule.log) == steps * 3, "one application per site and step")
    for t in range(1, steps + 1):
        s = res.get_step(t)
        for i, v in zip(ids, x):
            ctx.check(same(s.get_site_state(i)["x"], v + t * add), "every site's rule is applied at every step")
