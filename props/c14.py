"""Saving and loading results."""
import copy
import json
import os

from symx.api import AND, harness, same
from props.util import GENERAL, SITES, RefState, make_state, state_is
from props.c13 import FORMS, history, holds, long_history

from pylattica.core.basic_controller import BasicController
from pylattica.core.runner import AsynchronousRunner, SynchronousRunner
from pylattica.core.simulation_result import SimulationResult
from pylattica.core.simulation_state import SimulationState


def round_trip(ctx, res, how):
    if how == "dict":
        return SimulationResult.from_dict(res.as_dict())
    if how == "json":
        return SimulationResult.from_dict(json.loads(json.dumps(res.as_dict())))
    if how == "default":
        here = os.getcwd()
        os.chdir(ctx.tmpdir())
        try:
            name = res.to_file()
            ctx.check(os.path.exists(name), "the file is where the returned name says")
            return SimulationResult.from_file(name)
        finally:
            os.chdir(here)
    path = os.path.join(ctx.tmpdir(), "result.json.gz" if how == "gz" else "result.json")
    # over what an earlier, larger one left there
    start = SimulationState()
    for i in range(4):
        start.set_site_state(i, {"long": "something long" * 9})
    before = SimulationResult(start)
    for i in range(5):
        before.add_step({i: {"long": f"something else {i}" * 9}})
    before.to_file(path)
    ctx.check(res.to_file(path) == path, "the file's name is returned")
    return SimulationResult.from_file(path)


def same_history(ctx, got, refs, what):
    ctx.check(isinstance(got, SimulationResult), f"{what}: a result")
    ctx.check(len(got) == len(refs), f"{what}: number of steps")
    state_is(ctx, got.initial_state, refs[0], f"{what}: initial state")
    for t, r in enumerate(refs):
        state_is(ctx, got.get_step(t), r, f"{what}: step {t}")
    for t, s in enumerate(got.steps()):
        state_is(ctx, s, refs[t], f"{what}: step {t} by iterating")
    state_is(ctx, got.last_step, refs[-1], f"{what}: last step")


HOWS = ["dict", "json", "file", "gz", "default"]
SEQS = [(f,) for f in FORMS] + [("sites", "full"), ("only-general", "sites", "new"), ("empty", "only-sites", "full")]


@harness("C14", quick=[(h, s) for h in ("dict", "json", "file") for s in SEQS] + [(h, s) for h in ("gz", "default") for s in SEQS[-3:]]
         + [("file", ())],
         thorough=[("file", (a, b, c)) for a in FORMS for b in FORMS[:4] for c in ("sites", "full", "new")],
         bounds="up to 3 updates in every format, for 3 sites of any ids and values; through a dictionary, JSON, and files with and "
                "without compression and with the default name; twice over")
def saved(ctx, cfg):
    how, forms = cfg
    ids, res, refs, updates = history(ctx, forms)
    for u in updates:
        res.add_step(u)
    if ctx.bool("cached"):
        res.load_steps()
    got = round_trip(ctx, res, how)
    same_history(ctx, got, refs, "loaded")
    same_history(ctx, res, refs, "the saved one")
    same_history(ctx, round_trip(ctx, got, "file" if how == "dict" else how), refs, "saved and loaded again")
    # a loaded result is a result of its own
    more = {ids[0]: {"x": ctx.int("more")}}
    got.add_step(more)
    ctx.check(len(got) == len(refs) + 1 and len(res) == len(refs), "the loaded result can be continued")
    last = refs[-1].copy()
    last.write(ids[0], more[ids[0]])
    state_is(ctx, got.last_step, last, "the continued result")
    same_history(ctx, res, refs, "the saved one afterwards")


class Rule(BasicController):
    def __init__(self, form, a, ids):
        self.form, self.a, self.ids = form, a, ids

    def get_random_site(self, state):
        return list(self.ids)

    def get_state_update(self, site_id, prev_state):
        x = prev_state.get_site_state(site_id)["x"]
        return {"own": {"x": x + self.a}, "none": None, "sites": {site_id: {"x": x + self.a, "list": [x, None, "s", {"k": self.a}]}},
                "general": {GENERAL: {"g": x, "d": {"a": [x, True]}}}}[self.form]


@harness("C14", quick=[(m, f, h) for m in ("sync", "async") for f in ("own", "none", "sites", "general") for h in ("json", "file")],
         bounds="results of 2 synchronous or 3 asynchronous steps over 2 sites, with nested values, any numbers")
def of_runs(ctx, cfg):
    mode, form, how = cfg
    ids = [ctx.int("i", 0, 50), ctx.int("j", 0, 50)]
    ctx.assume(ids[0] != ids[1])
    st, _ = make_state(ctx, ids, keys=("x",))
    runner = SynchronousRunner() if mode == "sync" else AsynchronousRunner()
    res = runner.run(st, Rule(form, ctx.int("a"), ids), 2 if mode == "sync" else 3)
    want = [res.get_step(t) for t in range(len(res))]
    got = round_trip(ctx, res, how)
    ctx.check(len(got) == len(want), "number of steps")
    for t, w in enumerate(want):
        s = got.get_step(t)
        ctx.check(s.size == w.size, "sites")
        for i in w.site_ids():
            ctx.check(same(s.get_site_state(i), w.get_site_state(i)), "values")
        ctx.check(same(s.get_general_state(), w.get_general_state()), "general values")
        v = res.get_step(t)
        ctx.check(AND([same(v.get_site_state(i), w.get_site_state(i)) for i in ids]), "the saved result is unchanged")


@harness("C14", quick=[("file", 30, 2), ("json", 270, 3), ("gz", 140, 5), ("file", 12, 300)], thorough=[("file", 1100, 4), ("file", 20, 1100)],
         bounds="up to 270 (thorough 1100) updates or 300 (1100) sites, a few values of which are any numbers")
def long(ctx, cfg):
    how, n, sites = cfg
    res, updates, hist = long_history(ctx, n, sites)
    for u in updates:
        res.add_step(u)
    if ctx.bool("cached"):
        res.load_steps(5)
    for what, got in (("loaded", round_trip(ctx, res, how)), ("the saved one", res)):
        ctx.check(len(got) == n + 1, f"{what}: length")
        for t, s in enumerate(got.steps()):
            holds(ctx, s, hist[t], f"{what}: step {t}")
        for t in (1, n // 2, n - 1, n):
            holds(ctx, got.get_step(t), hist[t], f"{what}: step {t} by number")
