"""Asynchronous runs."""
from symx.api import AND, OR, harness, same
from props.util import GENERAL, SITES, RefState, make_state, state_is

from pylattica.core.basic_controller import BasicController
from pylattica.core.runner import AsynchronousRunner
from pylattica.core.simulation_result import SimulationResult

IDS = [3, 0, 8, 5]


class Rule(BasicController):
    """Adds to a site what the state holds at another, and asks for the given sites next."""

    def __init__(self, ids, add, follow, offers, form):
        self.ids, self.add, self.follow, self.offers, self.form = ids, add, follow, offers, form
        self.log, self.asked = [], []

    def get_random_site(self, state):
        self.asked.append((len(self.log), {i: dict(state.get_site_state(i)) for i in self.ids}))
        if self.offers is None:
            return super().get_random_site(state)
        k = len(self.asked) - 1
        return self.offers[k] if k < len(self.offers) else []

    def get_state_update(self, site_id, prev_state):
        self.log.append((site_id, {i: dict(prev_state.get_site_state(i)) for i in self.ids},
                         dict(prev_state.get_general_state())))
        k = len(self.log) - 1
        u = update_of(self, site_id, prev_state.get_site_state(site_id)["x"], prev_state.get_site_state(self.ids[-1])["x"])
        nxt = self.follow[k] if k < len(self.follow) else None
        if nxt is None:
            return u
        return u, nxt


def update_of(rule, site_id, here, other):
    if rule.form == "own":
        return {"x": here + other + rule.add}
    if rule.form == "pair":
        return {site_id: {"x": here - rule.add}, rule.ids[-1]: {"x": other + rule.add, "last": site_id}}
    if rule.form == "none":
        return None
    return {SITES: {site_id: {"x": other}}, GENERAL: {"g": here}}


def write(ref, rule, site_id):
    u = update_of(rule, site_id, ref.of(site_id)["x"], ref.of(rule.ids[-1])["x"])
    if u is None:
        return
    if SITES in u:
        ref.write_general(u[GENERAL])
        u = u[SITES]
    elif rule.form == "own":
        u = {site_id: u}
    for s, v in u.items():
        ref.write(s, v)


def _expect(ctx, rule, ref0, steps, draws):
    """The visits a run should make, with the states before each."""
    ref = ref0.copy()
    states, visits, asked, queue = [ref0], [], [], []

    def ask():
        k = len(asked)
        asked.append(len(visits))
        if rule.offers is None:
            got = draws(k)
        else:
            got = rule.offers[k] if k < len(rule.offers) else []
        queue.extend(got if isinstance(got, list) else [] if got is None else [got])

    ask()
    if not queue:
        return None
    for k in range(steps):
        s = queue.pop(0)
        visits.append(s)
        ref = ref.copy()
        write(ref, rule, s)
        states.append(ref)
        nxt = rule.follow[k] if k < len(rule.follow) else None
        queue.extend(nxt or [])
        if not queue:
            ask()
        if not queue:
            break
    return visits, asked, states


def _verify(ctx, res, rule, st, ref0, want):
    visits, asked, states = want
    ctx.check(len(rule.log) == len(visits), "as many applications as asked for, fewer only when there is nothing to visit")
    for k, (site, seen, general) in enumerate(rule.log):
        ctx.check(site == visits[k], "first come, first served")
        ctx.check(AND([same(v, states[k].of(i)) for i, v in seen.items()]), "the rule sees all earlier steps")
        ctx.check(same(general, states[k].general), "the rule sees all earlier steps")
    ctx.check([a for a, _ in rule.asked] == asked, "drawn only when there is nothing to visit")
    for a, seen in rule.asked:
        ctx.check(AND([same(v, states[a].of(i)) for i, v in seen.items()]), "drawn from the current state")
    ctx.check(isinstance(res, SimulationResult) and len(res) == len(visits) + 1, "one update per step")
    for t, r in enumerate(states):
        state_is(ctx, res.get_step(t), r, f"step {t}")
    state_is(ctx, res.output, states[-1], "output")
    state_is(ctx, st, ref0, "the given state afterwards")


# how many sites the rule asks for at each step (None: it only returns values)
FOLLOWS = {"nothing": [None] * 6, "one": [1, None, 1, None], "two": [2, None, 1, None, None],
           "empty": [0, None, 2, 0], "chain": [1, 1, 1, 1, 1], "self": [2, 1, 0, 0],
           "many": [7, 3, None, 4, 0, None, 1, 2]}
# what drawing gives at each time
OFFERS = {"sites": [1, 1, 1, 1, 1, 1], "lists": [[2], [1], [1], [0], [2]], "few": [[1], 1, [0], [1]]}


@harness("C12", quick=[(f, "pair", n, o) for f in FOLLOWS if f != "many" for n, o in [(3, "sites"), (2, "lists"), (3, "few")]]
         + [("two", "none", 3, "few"), ("two", "full", 3, "sites"), ("one", "own", 3, "lists"), ("many", "own", 2, "few")],
         thorough=[(f, form, 4, o) for f in FOLLOWS if f != "many" for form in ("own", "full") for o in ("sites", "lists")],
         bounds="2..4 sites with any values, up to 9 steps; the rule asking for 0 to 7 sites next at each step in seven patterns, "
                "the controller offering sites one by one, in lists, or too few; every asked and offered site free")
def queue(ctx, cfg):
    follow, form, n, how = cfg
    ids = IDS[:n]
    st, ref0 = make_state(ctx, ids, keys=("x",))
    steps = {"nothing": 3, "two": 5, "chain": 4, "many": 9}.get(follow, 4)

    def site(name):
        i = ctx.int(name, 0, 8)
        ctx.assume(OR([i == k for k in ids]))
        return i

    fol = [None if f is None else [site(f"next{k}.{j}") for j in range(f)] for k, f in enumerate(FOLLOWS[follow])]
    offers = [[site(f"offer{k}.{j}") for j in range(f[0])] if isinstance(f, list) else site(f"offer{k}")
              for k, f in enumerate(OFFERS[how])]
    rule = Rule(ids, ctx.int("add", -9, 9), fol, offers, form)
    kept = ([list(f) if f is not None else None for f in fol], [list(o) if isinstance(o, list) else o for o in offers])
    res = AsynchronousRunner().run(st, rule, steps)
    ctx.check(same([fol, offers], list(kept)), "the rule's lists are left as they were")
    _verify(ctx, res, rule, st, ref0, _expect(ctx, rule, ref0, steps, None))
    ctx.observe([res.output.get_site_state(i)["x"] for i in ids])


class _Drawn(Rule):
    """Remembers the sites drawn for it."""

    def __init__(self, *a):
        super().__init__(*a)
        self.drawn = []

    def get_random_site(self, state):
        got = super().get_random_site(state)
        self.drawn.append(got)
        return got


@harness("C12", quick=["own", "pair"], thorough=["full"], covers=lambda f: [f"{i} drawn {w}" for i in IDS for w in ("first", "again")],
         bounds="4 sites with any values, 3 steps, every random draw of the default controller")
def default_draws(ctx, form):
    st, ref0 = make_state(ctx, IDS, keys=("x",))
    rule = _Drawn(IDS, ctx.int("add", -9, 9), [None, [8, 0], None], None, form)
    res = AsynchronousRunner().run(st, rule, 3)
    for n, s in enumerate(rule.drawn):
        ctx.check(OR([s == i for i in IDS]), "one of the state's sites is drawn")
        ctx.cover(f"{s} drawn {'again' if n else 'first'}")
    _verify(ctx, res, rule, st, ref0, _expect(ctx, rule, ref0, 3, lambda k: rule.drawn[k]))


@harness("C12", quick=["empty", "none"], bounds="a controller offering no site at first; 0..3 steps")
def refused(ctx, how):
    st, ref0 = make_state(ctx, IDS, keys=("x",))
    rule = Rule(IDS, 1, [], [[] if how == "empty" else None, 3, 0], "own")
    steps = ctx.size("steps", 0, 3)
    ctx.check(ctx.raises(lambda: AsynchronousRunner().run(st, rule, steps), RuntimeError) is not None, "nothing to visit is refused")
    ctx.check(len(rule.log) == 0, "before any application")
    state_is(ctx, st, ref0, "the given state afterwards")


@harness("C12", quick=[3], thorough=[5],
         bounds="4 sites, two runs of one runner and controller of 3 (thorough 5) steps, the first leaving sites to visit")
def again(ctx, steps):
    st, ref0 = make_state(ctx, IDS, keys=("x",))
    a = ctx.pick("a", IDS)
    runner = AsynchronousRunner()
    add = ctx.int("add", -9, 9)
    follow = [[a, 0, 8], [5], [3, a], [0]]
    rule = Rule(IDS, add, follow, [8, 3, 5, 0, 3], "pair")
    first = runner.run(st, rule, steps)
    want = _expect(ctx, rule, ref0, steps, None)
    _verify(ctx, first, rule, st, ref0, want)
    second = Rule(IDS, add, follow[::-1], [[3, 3], 5, 8, 0], "own")
    res = runner.run(st, second, steps)
    _verify(ctx, res, second, st, ref0, _expect(ctx, second, ref0, steps, None))
    for t, r in enumerate(want[2]):
        state_is(ctx, first.get_step(t), r, f"step {t} of the first run afterwards")


@harness("C12", quick=[(2, False), (3, True)], thorough=[(3, False), (5, True)], covers=lambda c: [f"drawn {i}" for i in (1, 9, 5)],
         bounds="one runner and default controller over two states of different sites, 2 or 3 (thorough 3 or 5) steps each, every draw; a rule "
                "that brings in new sites while it runs, and asks for them next or not")
def other_sites(ctx, cfg):
    steps, asks = cfg
    from pylattica.core.simulation_state import SimulationState

    class Rule2(BasicController):
        def __init__(self):
            self.log = []

        def get_state_update(self, site_id, prev_state):
            self.log.append((site_id, list(prev_state.site_ids())))
            u = {site_id: {"x": prev_state.get_site_state(site_id)["x"] + 1}, site_id + 20: {"x": 0}}
            return (u, [site_id + 20]) if asks else u

    runner, rule = AsynchronousRunner(), Rule2()
    for ids in ([3], [1, 9, 5]):
        rule.log = []
        st, ref = make_state(ctx, ids, keys=("x",)) if ids == [3] else (SimulationState(), RefState())
        if ids != [3]:
            for k in ids:
                st.set_site_state(k, {"x": k})
                ref.write(k, {"x": k})
        res = runner.run(st, rule, steps)
        ctx.check(len(rule.log) == steps, "as many applications as asked for")
        now = ref
        for t, (s, seen) in enumerate(rule.log):
            ctx.check(sorted(seen) == sorted(i for i, _ in now.sites), "the sites of the state so far")
            here = [i for i, _ in now.sites]
            ctx.check(OR([s == i for i in here]), "one of the state's sites is drawn")
            k = [i for i in here if s == i][0]
            if t and asks:
                ctx.check(s == rule.log[t - 1][0] + 20, "the site that was asked for, though it is new")
            if t == 0 and len(ids) == 3:
                ctx.cover(f"drawn {k}")
            now = now.copy()
            now.write(k, {"x": now.of(k)["x"] + 1})
            now.write(k + 20, {"x": 0})
            state_is(ctx, res.get_step(t + 1), now, f"step {t + 1}")
        state_is(ctx, res.output, now, "output")


class _Walks(BasicController):
    """Moves a value on to the site asked for next; asks for many sites once."""

    def __init__(self, n, add, burst):
        self.n, self.add, self.burst, self.log, self.draws = n, add, burst, [], 0

    def get_random_site(self, state):
        self.draws += 1
        return (7 * self.draws) % self.n

    def get_state_update(self, site_id, prev_state):
        self.log.append(site_id)
        to = (site_id + 1) % self.n
        u = {to: {"x": prev_state.get_site_state(site_id)["x"] + self.add}}
        if len(self.log) == 2 and self.burst > 0:
            return u, [(3 * j) % self.n for j in range(self.burst)]
        if self.burst < 0 or len(self.log) % 3 == 0 and self.n > 2:
            return u, [to]
        return u


@harness("C12", quick=[(5, 260, 0), (5, 150, 120), (320, 40, 30), (2, 140, 0), (1200, 6, 3), (4, 130, -1)], thorough=[(3, 1100, 0), (3, 600, 500), (5000, 20, 9)],
         bounds="up to 1200 (thorough 5000) sites, two of them with any values; up to 260 (1100) steps; up to 120 (500) sites asked for at once, or the next one always")
def large(ctx, cfg):
    from pylattica.core.simulation_state import SimulationState

    n, steps, burst = cfg
    v, w, add = ctx.int("v"), ctx.int("w"), ctx.int("add", -9, 9)
    vals = list(range(n))
    vals[7 % n], vals[ctx.pick("k", [n - 1, n // 2])] = v, w
    st = SimulationState()
    for i in range(n):
        st.set_site_state(i, {"x": vals[i]})
    rule = _Walks(n, add, burst)
    res = AsynchronousRunner().run(st, rule, steps)
    now, hist, queue, draws = list(vals), [list(vals)], [7 % n], 1
    for k in range(steps):
        s = queue.pop(0)
        ctx.check(rule.log[k] == s, "first come, first served")
        to = (s + 1) % n
        now[to] = now[s] + add
        hist.append(list(now))
        if k == 1 and burst > 0:
            queue += [(3 * j) % n for j in range(burst)]
        elif burst < 0 or k % 3 == 2 and n > 2:
            queue.append(to)
        if not queue:
            draws += 1
            queue.append((7 * draws) % n)
    ctx.check(len(rule.log) == steps and rule.draws == draws, "as many applications and draws as there should be")
    ctx.check(len(res) == steps + 1, "one update per step")

    def holds(state, t, what):
        ctx.check(state.size == n, f"{what}: sites")
        ctx.check(AND([same(state.get_site_state(i)["x"], hist[t][i]) for i in range(n)]), f"{what}: values")

    holds(res.output, steps, "output")
    for t, s in enumerate(res.steps()):
        holds(s, t, f"step {t}")
    for t in (1, steps // 2, steps - 1):
        holds(res.get_step(t), t, f"step {t} by number")
    holds(st, 0, "the given state afterwards")
