"""Parallel runs against serial ones."""
from symx.api import AND, harness, same
from props.util import GENERAL, SITES, SITE_ID, make_state

from pylattica.core.basic_controller import BasicController
from pylattica.core.runner import SynchronousRunner
from pylattica.core.simulation_result import SimulationResult


class Rule(BasicController):
    def __init__(self, shape, ids, add, threshold):
        self.shape, self.ids, self.add, self.threshold = shape, ids, add, threshold

    def get_state_update(self, site_id, prev_state):
        # the sites' neighbors are those before and after them in the order of the states
        ids = prev_state.site_ids()
        n = [i for i, s in enumerate(ids) if s == site_id][0]
        here = prev_state.get_site_state(site_id)["x"]
        left = prev_state.get_site_state(ids[n - 1])["x"]
        if self.shape == "sum":
            return {"x": here + left + self.add}
        if self.shape == "some":
            # nothing for sites above the threshold
            return {"x": left, "y": here} if here < self.threshold else None
        if self.shape == "sites":
            return {site_id: {"x": left - here}}
        if self.shape == "general":
            g = prev_state.get_general_state()["g"]
            return {SITES: {site_id: {"x": here + g}}, GENERAL: {"g": g + left, "last": n}}
        if self.shape == "tally":
            # nothing about sites
            return {GENERAL: {f"g{n}": here, "last": left}}
        if self.shape == "next":
            # every site writes to the one after it, and to the first one
            return {ids[(n + 1) % len(ids)]: {"x": here + self.add}, ids[0]: {f"k{n % 2}": left, "z": n}}
        if self.shape == "new":
            # a site that was not there
            return {site_id: {"x": here + 1}, max(ids) + 1: {"x": here}}
        raise AssertionError(self.shape)


def whole(state):
    return {"sites": {i: dict(state.get_site_state(i)) for i in state.site_ids()},
            "general": dict(state.get_general_state())}


def agree(ctx, par, ser, steps, what):
    ctx.check(isinstance(par, SimulationResult), "a result")
    ctx.check(len(par) == steps + 1 and len(ser) == steps + 1, f"{what}: number of steps")
    for t in range(steps + 1):
        ctx.check(same(whole(par.get_step(t)), whole(ser.get_step(t))), f"{what}: step {t}")
    ctx.check(same(whole(par.output), whole(ser.output)), f"{what}: output")
    ctx.check(same(whole(par.initial_state), whole(ser.initial_state)), f"{what}: initial state")
    ctx.check(same(whole(par.last_step), whole(par.output)), f"{what}: output is the last step")


def _workers(ctx, most):
    """Given, or one per CPU."""
    w = ctx.size("workers", 1, most)
    if ctx.bool("by_cpu"):
        ctx.cpus = w
        return None
    return w


@harness("C11", quick=[("sum", 3, 3, 2), ("sum", 5, 3, 1), ("some", 3, 2, 2), ("sites", 4, 4, 1), ("general", 4, 3, 2), ("next", 4, 3, 2),
                       ("new", 2, 2, 2), ("sum", 6, 2, 1), ("tally", 3, 3, 2)],
         thorough=[("sum", 7, 6, 1), ("general", 3, 3, 4), ("next", 6, 5, 1), ("some", 5, 4, 1), ("new", 2, 3, 3), ("sum", 4, 4, 2)],
         bounds="0..7 sites, 1..6 workers (given, or as many CPUs), up to 3 steps; every assignment of batches to forked "
                "workers; rules reading and writing other sites and the general state, or creating sites, any values")
def equals_serial(ctx, cfg):
    shape, most, workers, steps = cfg
    n = ctx.size("n", 0 if shape == "sum" else 1, most)
    # identifiers in no particular order
    ids = [5, 2, 9, 0, 7, 3, 8][:n]
    st, _ = make_state(ctx, ids, keys=("x",))
    rule = Rule(shape, ids, ctx.int("add", -9, 9), ctx.int("threshold", -9, 9))
    w = _workers(ctx, workers)
    before = whole(st)
    par = SynchronousRunner(parallel=True, workers=w).run(st, rule, steps)
    ctx.check(same(whole(st), before), "the given state is unchanged")
    ser = SynchronousRunner().run(st, rule, steps)
    agree(ctx, par, ser, steps, "parallel and serial")
    ctx.observe([par.output.get_site_state(i)["x"] for i in ids])


class _Plain(BasicController):
    def __init__(self, add):
        self.add = add

    def get_state_update(self, site_id, prev_state):
        return {"x": prev_state.get_site_state((site_id + 1) % prev_state.size)["x"] + self.add}


@harness("C11", quick=[(230, 230), (230, 1), (1030, 3), (70, 9), (129, 64)], thorough=[(1100, 1100), (5000, 2), (257, 16)],
         bounds="up to 1030 (thorough 5000) sites, one of them with any value, and up to 230 (1100) workers; one step; a few "
                "assignments of batches to workers")
def large(ctx, cfg):
    n, w = cfg
    from pylattica.core.simulation_state import SimulationState

    v = ctx.int("v")
    st = SimulationState()
    for i in range(n):
        st.set_site_state(i, {"x": i})
    k = ctx.pick("k", [0, n // 2, n - 1])
    st.set_site_state(k, {"x": v})
    rule = _Plain(ctx.int("add", -9, 9))
    how = ctx.pick("how", ["one", "spread", "reversed"])
    ctx.schedule = lambda kind, lo, hi: lo if how == "one" or (how == "spread" and kind == "done") else hi
    par = SynchronousRunner(parallel=True, workers=w).run(st, rule, 1)
    for i in range(n):
        j = (i + 1) % n
        ctx.check(par.output.get_site_state(i)["x"] == (v if j == k else j) + rule.add, "every site is updated")
    ctx.check(par.output.size == n, "and no other")


class _Remembers(Rule):
    """Given its constants when the run starts."""

    def pre_run(self, initial_state):
        self.add = initial_state.get_general_state()["g"]


class _Negative(_Remembers):
    def pre_run(self, initial_state):
        self.add = -initial_state.get_general_state()["g"]


@harness("C11", quick=[(3, 2)], thorough=[(5, 3)],
         bounds="3 (thorough 5) sites, 1..2 (3) workers; two runs one after the other from states with any values, by one runner and "
                "one or two controllers; every assignment of batches to workers")
def repeated(ctx, cfg):
    n, most = cfg
    ids = [4, 1, 6, 0, 3][:n]
    st, _ = make_state(ctx, ids, keys=("x",))
    w = ctx.size("workers", 1, most)
    runner = SynchronousRunner(parallel=True, workers=w)
    a = _Remembers("sum", ids, 0, 0)
    b = _Remembers("sites", ids, 0, 0) if ctx.bool("other") else a
    first = runner.run(st, a, 1)
    agree(ctx, first, SynchronousRunner().run(st, _Remembers("sum", ids, 0, 0), 1), 1, "first run")
    if b is not a and ctx.bool("alike"):
        # another controller of the same class
        b = _Negative("sum", ids, 0, 0) if ctx.pick("sub", [True, False]) else _Remembers("some", ids, 0, 2)
    st.set_site_state(ids[0], {"x": ctx.int("v")})
    st.set_general_state({"g": ctx.int("h")})
    st.set_site_state(11, {"x": 5})
    second = runner.run(st, b, 1)
    agree(ctx, second, SynchronousRunner().run(st, type(b)(b.shape, ids, 0, b.threshold), 1), 1, "second run")
