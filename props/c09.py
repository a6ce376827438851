"""Update formats a rule may return."""
import copy

from symx.api import AND, OR, harness, same
from props.util import GENERAL, SITES, SITE_ID, RefState, make_state, state_is

from pylattica.core.basic_controller import BasicController
from pylattica.core.runner import AsynchronousRunner, SynchronousRunner
from pylattica.core.runner.common import merge_updates

FORMS = ["none", "empty", "own", "sites", "one-site", "only-sites", "only-general", "full", "full-empty", "nested", "digits", "nothings"]


def _update(ctx, name, form, ids):
    """A rule's answer in the given form, and what it says: (own values, values per site, general values)."""
    v, w = ctx.int(name + "v"), ctx.int(name + "w")
    if form == "none":
        return None, ({}, [], {})
    if form == "empty":
        return {}, ({}, [], {})
    if form == "own":
        return {"x": v, "y": w}, ({"x": v, "y": w}, [], {})
    if form == "digits":
        return {"1": v, "-2": w}, ({"1": v, "-2": w}, [], {})
    if form == "one-site":
        return {ids[0]: {"y": v}}, (None, [(ids[0], {"y": v})], {})
    if form == "sites":
        return {ids[0]: {"x": v}, ids[1]: {"y": w, "z": v}}, (None, [(ids[0], {"x": v}), (ids[1], {"y": w, "z": v})], {})
    if form == "only-sites":
        return {SITES: {ids[1]: {"x": w}}}, (None, [(ids[1], {"x": w})], {})
    if form == "only-general":
        return {GENERAL: {"g": v}}, (None, [], {"g": v})
    if form == "nested":
        # values are replaced whole, whatever they are
        u = {ids[0]: {"x": {"in": v, name: [w]}, "y": [v]}}
        return {SITES: u, GENERAL: {"g": {"in": w, name: 1}}}, (
            None, [(ids[0], {"x": {"in": v, name: [w]}, "y": [v]})], {"g": {"in": w, name: 1}})
    if form == "nothings":
        # None is a value like any other
        u = {ids[0]: {"x": None, "y": v}}
        return {SITES: u, GENERAL: {"g": None, "h": w}}, (None, [(ids[0], {"x": None, "y": v})], {"g": None, "h": w})
    if form == "full-empty":
        return {SITES: {}, GENERAL: {}}, (None, [], {})
    return ({SITES: {ids[0]: {"x": w, "z": None}}, GENERAL: {"g": w, "h": v}},
            (None, [(ids[0], {"x": w, "z": None})], {"g": w, "h": v}))


class _Acc:
    """What a step's updates amount to."""

    def __init__(self):
        self.sites, self.general = [], {}

    def of(self, sid):
        for s, v in self.sites:
            if s == sid:
                return v
        v = {}
        self.sites.append((sid, v))
        return v

    def add(self, meaning, sid):
        own, sites, general = meaning
        if own is not None:
            self.of(sid).update(own)
        for s, u in sites:
            self.of(s).update(u)
        self.general.update(general)


def _snap(u):
    """A copy of an answer that does not share anything with it."""
    if isinstance(u, dict):
        return [(k, _snap(v)) for k, v in u.items()]
    return u


def _unchanged(u, s):
    if isinstance(u, dict):
        return AND([len(u) == len(s)] + [AND(k == l, _unchanged(v, t)) for (k, v), (l, t) in zip(u.items(), s)])
    return same(u, s)


@harness("C09", quick=[(a, b) for a in FORMS for b in FORMS[1:]], thorough=[("3", a, b) for a in FORMS for b in FORMS],
         bounds="2 (thorough 3) answers in every combination of formats, merged for any two sites, naming any two sites each, "
                "with any values")
def merging(ctx, forms):
    if forms[0] == "3":
        forms = ["full"] + list(forms[1:])
    acc, cur = _Acc(), None
    answers = []
    start = ctx.bool("start")
    if start:
        cur = {SITES: {ctx.int("c"): {"x": 1, "q": 2}}, GENERAL: {"g": 3, "k": 4}}
        for s, u in list(cur[SITES].items()):
            acc.of(s).update(u)
        acc.general.update(cur[GENERAL])
    for n, f in enumerate(forms):
        ids = [ctx.int(f"i{n}"), ctx.int(f"j{n}")]
        ctx.assume(ids[0] != ids[1])
        sid = ctx.int(f"s{n}")
        u, meaning = _update(ctx, f"u{n}", f, ids)
        before = _snap(u)
        answers.append((u, before))
        cur = merge_updates(u, cur, sid)
        if f != "none":
            acc.add(meaning, sid)
    for u, before in answers:
        ctx.check(_unchanged(u, before), "a rule's answer is left as it was")
    if cur is None:
        ctx.check(not any(u for _, u in acc.sites) and not acc.general, "something was merged")
        return
    ctx.check(set(cur) == {SITES, GENERAL}, "a full update")
    ctx.check(same(cur[GENERAL], acc.general), "general values")
    # an entry that sets nothing says nothing
    given = [(s, u) for s, u in acc.sites if u]
    for s, u in given:
        got = cur[SITES].get(s)
        ctx.check(got is not None, "every named site is there")
        ctx.check(same(got, u), "values of a site")
    for s, u in cur[SITES].items():
        ctx.check(len(u) == 0 or OR([s == t for t, _ in given]), "no other site")


@harness("C09", quick=["own", "none", "empty"], bounds="any values; no site, or one of the other formats")
def refused(ctx, form):
    if form == "none":
        cur = {SITES: {ctx.int("c"): {"x": 1}}, GENERAL: {}}
        ctx.check(merge_updates(None, cur) is not None, "nothing returned is nothing changed")
        ctx.check(merge_updates(None) is None, "nothing returned is nothing changed")
        return
    u, _ = _update(ctx, "u", form, [0, 1])
    cur = None if ctx.bool("none") else {SITES: {}, GENERAL: {}}
    ctx.check(ctx.raises(lambda: merge_updates(u, cur), ValueError) is not None, "values of no site are refused")
    if cur is not None:
        ctx.check(cur == {SITES: {}, GENERAL: {}}, "and change nothing")


class _Rule(BasicController):
    def __init__(self, answers, order=None):
        self.answers, self.order, self.calls = answers, list(order or []), 0

    def get_state_update(self, site_id, prev_state):
        k = self.calls
        self.calls += 1
        return self.answers[k % len(self.answers)] if self.order else self.answers[site_id]

    def get_random_site(self, state):
        return self.order[self.calls % len(self.order)]


@harness("C09", quick=[("sync", f) for f in FORMS] + [("async", f) for f in FORMS], thorough=[],
         bounds="2 sites whose rule answers in the given format and in any other one, naming any of 4 sites, any values; one "
                "synchronous or two asynchronous steps")
def in_runs(ctx, cfg):
    mode, first = cfg
    st, ref = make_state(ctx, [0, 1], keys=("x", "y"))
    second = ctx.pick("second", FORMS)
    answers, meanings = [], []
    ids = [ctx.int("i", -1, 2), 3]
    for n, f in enumerate([first, second]):
        u, m = _update(ctx, f"u{n}", f, ids[::-1] if n else ids)
        answers.append(u)
        meanings.append(m)
    snaps = [_snap(u) for u in answers]
    if mode == "sync":
        res = SynchronousRunner().run(st, _Rule(answers), 1)
    else:
        res = AsynchronousRunner().run(st, _Rule(answers, [1, 0]), 2)
    for u, s in zip(answers, snaps):
        ctx.check(_unchanged(u, s), "a rule's answer is left as it was")
    order = [0, 1] if mode == "sync" else [1, 0]
    for n, m in enumerate(meanings):
        own, sites, general = m
        if own:
            ref.write(order[n], own)
        for s, u in sites:
            ref.write(s, u)
        ref.write_general(general)
    state_is(ctx, res.last_step, ref, "at the end")
    state_is(ctx, res.output, ref, "output")


@harness("C09", quick=[130, 300], thorough=[1100], bounds="130 and 300 (thorough 1100) answers in turn in the formats, most for sites of their own, a few with any values, merged")
def many(ctx, n):
    v = [ctx.int(f"v{k}") for k in range(3)]
    sites, general, cur = {}, {}, None

    def put(s, u):
        sites.setdefault(s, {}).update(u)

    for t in range(n):
        x = v[t % 3] + t if t % 10 < 3 else t
        s = t if t % 7 else 0
        kind = t % 5
        if kind == 0:
            u = {"x": x, f"k{t % 40}": x}
            put(s, u)
        elif kind == 1:
            u = {s: {"y": x}, s + 1: {"x": x}}
            for k, w in u.items():
                put(k, w)
        elif kind == 2:
            u = {SITES: {t // 2: {"z": x}}, GENERAL: {f"g{t % 50}": x}}
            put(t // 2, {"z": x})
            general[f"g{t % 50}"] = x
        elif kind == 3:
            u = {GENERAL: {"g": x}}
            general["g"] = x
        else:
            u = {SITES: {k: {"x": x} for k in range(t, t + 3)}}
            for k in range(t, t + 3):
                put(k, {"x": x})
        cur = merge_updates(u, cur, s)
    ctx.check(sorted(cur[SITES]) == sorted(sites), "every named site, and no other")
    ctx.check(AND([same(cur[SITES][s], u) for s, u in sites.items()]), "values of a site")
    ctx.check(same(cur[GENERAL], general), "general values")
