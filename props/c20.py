"""Analyses."""
from symx.api import AND, ITE, NOT, OR, count, harness
from props.util import GENERAL, OCC, SITES, lattice, near

from pylattica.core import PeriodicStructure, SimulationResult, SimulationState, StateAnalyzer
from pylattica.discrete import DiscreteResultAnalyzer, DiscreteStepAnalyzer

# VACANT cells and ones of a phase that looks like nothing count like others
PHASES = ("A", "", "VACANT")


def _state(ctx, ids, keys=("x",), name="p"):
    st = SimulationState()
    vals = {}
    for n, i in enumerate(ids):
        vals[i] = {k: ctx.int(f"{name}{n}{k}", -999, 999) for k in keys}
        vals[i][OCC] = ctx.enum(f"{name}{n}", PHASES)
        st.set_site_state(i, dict(vals[i]))
    return st, vals


def _exactly(ctx, got, wanted, what):
    """got lists, once each, the sites whose condition holds."""
    ctx.check(len(got) == count([c for _, c in wanted]), f"{what}: as many")
    for i, c in wanted:
        n = len([g for g in got if g == i])
        ctx.check(AND(n <= 1, (n == 1) == c), f"{what}: exactly the sites that match")


@harness("C20", quick=[(3, "ABA", 2, 1), (3, "ABB", 1, 1), (2, "AA", 3, 0), (2, "AB", 0, 1), (3, ["A", "", "A"], 1, 1), (2, ["", "B"], 0, 0), (0, "", 2, 1), (0, "", 0, 1), (0, "", 1, 0)],
         thorough=[(4, "ABBA", 2, 1), (4, "ABCA", 3, 1), (3, "AAB", 3, 1)],
         bounds="structures of none to three sites (thorough: four) of one or two classes, states listing their sites in reverse and one more, "
                "any values and phases, up to three criteria, any class asked for or none")
def filters(ctx, cfg):
    n, classes, ncrit, extra = cfg
    if n:
        lat, _, _ = lattice("rect")
        struct = PeriodicStructure(lat)
        ids = [struct.add_site(c, (0.25 * k, 0.5)) for k, c in enumerate(classes)]
        an = StateAnalyzer(struct) if ctx.bool("plain") else DiscreteStepAnalyzer(structure=struct)
    else:
        ids = [5, 2, 9]
        an = StateAnalyzer() if ctx.bool("plain") else DiscreteStepAnalyzer()
    st, vals = _state(ctx, list(reversed(ids)) + ([77] if extra else []))
    st.set_general_state({"x": 1})
    lo, p, q = ctx.int("lo", -999, 999), ctx.enum("ph", PHASES), ctx.enum("ph2", PHASES)
    crits = [lambda s: s["x"] >= lo, lambda s: s[OCC] == p, lambda s: s[OCC] != q][:ncrit]
    want = [lambda v: v["x"] >= lo, lambda v: v[OCC] == p, lambda v: NOT(v[OCC] == q)][:ncrit]
    cls = ctx.pick("class", [None, "A", "B", "Z", ""]) if n else None
    wanted = [(i, AND([w(vals[i]) for w in want] + [cls is None or classes[k] == cls])) for k, i in enumerate(ids)]
    if extra and not n:
        wanted.append((77, AND([w(vals[77]) for w in want])))
    kw = {}
    if cls is not None:
        kw["site_class"] = cls
    if ncrit:
        kw["state_criteria"] = list(crits)
    got = an.get_sites(st, **kw)
    _exactly(ctx, got, wanted, "filtering")
    ctx.check(an.get_site_count(st, **kw) == count([c for _, c in wanted]), "counting")
    if ncrit:
        ctx.check(len(kw["state_criteria"]) == ncrit, "the criteria stay as given")
        _exactly(ctx, an.get_sites(st, site_class=cls), [(i, cls is None or classes[k] == cls) if k < len(ids) and n else (i, True)
                                                        for k, (i, _) in enumerate(wanted)], "filtering again without criteria")


@harness("C20", quick=[(2, "AB", ("x", OCC)), (2, "AA", ("x", "y")), (2, ["A", ""], ("x",)), (2, "AB", ("x",)), (2, "BA", ()), (0, "", ("x", OCC)), (0, "", ("y", "x"))],
         thorough=[(3, "ABA", ("x", OCC)), (3, "ABB", ("y", "x", OCC)), (4, "ABAB", ("x",))],
         bounds="structures of none or two sites (thorough: four) of one or two classes, any values; searches for up to two (thorough: three) "
                "values at once, one of which some sites lack, any class asked for or none")
def equal(ctx, cfg):
    n, classes, keys = cfg
    if n:
        struct = PeriodicStructure(lattice("rect")[0])
        ids = [struct.add_site(c, (0.25 * k, 0.5)) for k, c in enumerate(classes)]
        an = StateAnalyzer(struct)
    else:
        ids = [5, 2, 9]
        an = DiscreteStepAnalyzer()
    st, vals = _state(ctx, ids)
    y = ctx.int("y", -999, 999)
    vals[ids[-1]]["y"] = y
    st.set_site_state(ids[-1], {"y": y})
    search = {k: ctx.enum("sp", PHASES) if k == OCC else ctx.int(f"s{k}", -999, 999) for k in keys}
    cls = ctx.pick("class", [None, "A", "B", ""]) if n else None
    wanted = [(i, AND([cls is None or classes[k] == cls] + [vals[i][s] == v if s in vals[i] else False for s, v in search.items()]))
              for k, i in enumerate(ids)]
    kw = {} if cls is None else {"site_class": cls}
    _exactly(ctx, an.get_sites_where_equal(st, dict(search), **kw), wanted, "searching")
    ctx.check(an.get_site_count_where_equal(st, dict(search), **kw) == count([c for _, c in wanted]), "counting a search")


@harness("C20", quick=[(640, 2), (130, 40)], thorough=[(3000, 3)],
         bounds="640 and 130 sites (thorough 3000) of two and 40 (3) classes, two of them with any values, any two bounds; every search and count")
def large(ctx, cfg):
    from pylattica.core.lattice import Lattice

    n, ncls = cfg
    struct = PeriodicStructure(Lattice([(n, 0), (0, 1)]))
    cls = [f"k{i * i % ncls}" for i in range(n)]
    ids = [struct.add_site(c, (k, 0.5)) for k, c in enumerate(cls)]
    vals = {i: {"x": i % 7, OCC: f"p{i % 30}"} for i in ids}
    for i in (n // 3, n - 1):
        vals[i] = {"x": ctx.int(f"x{i}", -9, 9), OCC: ctx.enum(f"p{i}", ("p1", "p29", "other"))}
    st = SimulationState()
    for i in ids:
        st.set_site_state(i, dict(vals[i]))
    lo = ctx.pick("lo", [0, 3, 6])
    phase = ctx.pick("phase", ["p1", "p29"])
    a, b = DiscreteStepAnalyzer(structure=struct), DiscreteStepAnalyzer()
    for c in (None, cls[-1]):
        wanted = [(i, AND(c is None or cls[i] == c, vals[i]["x"] >= lo)) for i in ids]
        _same_sites(ctx, a.get_sites(st, site_class=c, state_criteria=[lambda s: s["x"] >= lo]), wanted, "filtering")
        wanted = [(i, AND(c is None or cls[i] == c, vals[i][OCC] == phase)) for i in ids]
        _same_sites(ctx, a.get_sites_where_equal(st, {OCC: phase}, site_class=c), wanted, "searching")
        ctx.check(a.get_site_count_where_equal(st, {OCC: phase}, site_class=c) == count([w for _, w in wanted]), "counting a search")
    k = count([v[OCC] == phase for v in vals.values()])
    for an in (a, b):
        ctx.check(an.cell_count(st, phase) == k, "the number of sites of each phase")
        ctx.check(near(an.cell_fraction(st, phase) * n, k), "the count over the number of sites")
    want = [(p, OR([v[OCC] == p for v in vals.values()])) for p in sorted({f"p{k}" for k in range(30)} | {"other"})]
    _exactly(ctx, a.phases_present(st), want, "phases present")
    ctx.check(a.phase_count(st) == count([w for _, w in want]), "number of phases present")


def _same_sites(ctx, got, wanted, what):
    got = list(got)
    at = {}
    for g in got:
        at[g] = at.get(g, 0) + 1
    ctx.check(all(x == 1 for x in at.values()) and set(at) <= {i for i, _ in wanted}, f"{what}: once each")
    ctx.check(AND([(i in at) == c for i, c in wanted]), f"{what}: exactly the sites that match")


def _count(vals, p):
    return count([v[OCC] == p for v in vals.values()])


def _fractions(ctx, get, vals, what):
    for p in PHASES + ("Z",):
        ctx.check(near(get(p) * len(vals), _count(vals, p)), f"{what}: the count over the number of sites")


@harness("C20", quick=[1, 3, 4], thorough=[5, 6],
         bounds="states of one to four sites (thorough: six), any of three phases on each")
def phases(ctx, n):
    st, vals = _state(ctx, [7, 0, 3, -1, 12, 5][:n], keys=())
    an = DiscreteStepAnalyzer()
    _fractions(ctx, lambda p: an.cell_fraction(st, p), vals, "fraction")
    for p in PHASES + ("Z",):
        ctx.check(an.cell_count(st, p) == _count(vals, p), "the number of sites of each phase")
    A, B, C = PHASES
    for p, q in ((A, B), (B, A), (C, B)):
        if _count(vals, q) > 0:
            ctx.check(near(an.cell_ratio(st, p, q) * _count(vals, q), _count(vals, p)), "ratio of the two numbers")
    got = an.phases_present(st)
    _exactly(ctx, got, [(p, _count(vals, p) > 0) for p in PHASES], "phases present")
    ctx.check(an.phase_count(st) == count([_count(vals, p) > 0 for p in PHASES]), "number of phases present")
    ctx.check(near(sum(an.cell_fraction(st, p) for p in got), 1), "fractions add up to one")


def _result(ctx, nsites, forms):
    ids = [4, 0, 7][:nsites]
    st, vals = _state(ctx, ids, keys=())
    res = SimulationResult(st)
    steps = [vals]
    todo = []
    for n, f in enumerate(forms):
        vals = {i: dict(v) for i, v in vals.items()}
        u = {}
        for k in f:
            i = ids[int(k)]
            vals[i][OCC] = ctx.enum(f"u{n}_{k}", PHASES)
            u[i] = {OCC: vals[i][OCC]}
        todo.append({SITES: u, GENERAL: {}} if n % 2 else u)
        steps.append(vals)
    return res, steps, todo


def _present(steps, p):
    return OR([v[OCC] == p for s in steps for v in s.values()])


@harness("C20", quick=[(2, ("0",)), (2, ("01",)), (2, ()), (2, ("1", "0")), (3, ("", "0")), (2, ("0", "0")), (1, ("0", "0", "0"))],
         thorough=[(2, ("0", "1", "01")), (3, ("0", "12")), (3, ("12",)), (2, ("0", "0", "0"))],
         bounds="results of two or three sites and one to three steps (thorough: four), any phases; phases and fractions asked for after the "
                "run, and before and after more steps are added")
def results(ctx, cfg):
    nsites, forms = cfg
    res, steps, todo = _result(ctx, nsites, forms)
    an = DiscreteResultAnalyzer(res)
    early = ctx.size("early", 0, len(forms))
    for k, u in enumerate(todo):
        if k == early:
            got = an.all_phases()
            for p in PHASES:
                ctx.check((p in got) == _present(steps[:k + 1], p), "all phases so far")
        res.add_step(u)
    for t, vals in enumerate(steps):
        _fractions(ctx, lambda p: an.phase_fraction_at(t, p), vals, f"fractions at step {t}")
    if ctx.bool("cached"):
        res.load_steps()
    got = an.all_phases()
    _exactly(ctx, list(got), [(p, _present(steps, p)) for p in PHASES], "all phases of all steps")
    fin = an.final_phase_fractions()
    ctx.check(AND([(p in fin) == _present(steps, p) for p in PHASES]), "final fractions of every phase of the result")
    _fractions(ctx, lambda p: fin.get(p, 0), steps[-1], "final fractions")


@harness("C20", quick=[5, 9, 16, 101], thorough=[33, 230],
         bounds="results of 5 to 101 (thorough: 230) steps of a two-site state with two changes to any phases after any of four numbers of "
                "steps; fractions at every step, in either order, stored steps or not")
def long_results(ctx, n):
    st = SimulationState()
    for i in (0, 1):
        st.set_site_state(i, {OCC: "A"})
    when = ctx.pick("when", sorted({1, n // 3, n // 2 + 1, n - 2, n - 1}))
    new, last = ctx.enum("new", PHASES), ctx.enum("last", PHASES[1:])
    res = SimulationResult(st)
    steps = [["A", "A"]]
    for t in range(1, n):
        u = {1: {OCC: new}} if t == when else {0: {OCC: last}} if t == n - 1 else {}
        res.add_step(u)
        steps.append([u[i][OCC] if i in u else x for i, x in enumerate(steps[-1])])
    if ctx.bool("stored"):
        res.load_steps()
    an = DiscreteResultAnalyzer(res)
    order = list(range(n))
    if ctx.bool("backwards"):
        order.reverse()
    for t in order if n < 50 else order[::9] + order[-2:]:
        for p in PHASES:
            ctx.check(near(an.phase_fraction_at(t, p) * 2, count([x == p for x in steps[t]])), "the fraction at every step")
    got = an.all_phases()
    _exactly(ctx, list(got), [(p, OR([x == p for s in steps for x in s])) for p in PHASES], "all phases of all steps")


@harness("C20", quick=[(2, ("0",), None), (2, ("1", "0"), 0), (3, ("01",), 0.5), (2, ("0",), 0.5), (2, (), 0.4), (1, ("0", "0"), None)],
         thorough=[(3, ("0", "12"), 0.4), (2, ("0", "1", "01"), None)],
         bounds="plots of results of two or three sites and one to three steps (thorough: four), any phases, any of four thresholds")
def plots(ctx, cfg):
    nsites, forms, least = cfg
    res, steps, todo = _result(ctx, nsites, forms)
    for u in todo:
        res.add_step(u)
    an = DiscreteResultAnalyzer(res)
    fig = an.plot_phase_fractions() if least is None else an.plot_phase_fractions(min_prevalence=least)
    _plot_is(ctx, fig, list(range(len(steps))), steps, 0.01 if least is None else least)


def _plot_is(ctx, fig, xs, steps, least):
    names = [t.name for t in fig.data]
    for p in PHASES:
        shown = OR([_count(s, p) > least * len(s) for s in steps])
        ctx.check((len([x for x in names if x == p]) == 1) == shown, "one line for each phase that gets above the threshold")
    ctx.check(len(names) == len([x for x in names if x in PHASES]), "no other lines")
    for t in fig.data:
        ctx.check([int(x) for x in t.x] == xs, "a point for each step drawn")
        for y, s in zip(list(t.y), steps):
            ctx.check(near(y * len(s), _count(s, t.name)), "at the fraction of that step")


@harness("C20", quick=[99, 130, 199, 260], thorough=[100, 101, 150, 350],
         bounds="results of 99 to 260 (thorough: 350) steps of a two-site state, with one change to any phase after any of four numbers of "
                "steps, plotted")
def long_plots(ctx, n):
    st = SimulationState()
    for i in (0, 1):
        st.set_site_state(i, {OCC: "A"})
    when = ctx.pick("when", [1, 37, n // 2 + 1, n - 2])
    new = ctx.enum("new", PHASES[1:])
    res = SimulationResult(st)
    for t in range(1, n):
        res.add_step({1: {OCC: new}} if t == when else {})
    fig = DiscreteResultAnalyzer(res).plot_phase_fractions()
    xs = [int(x) for x in fig.data[0].x]
    ctx.check(xs == sorted(set(xs)), "steps in order")
    ctx.check(xs[0] == 0, "from the first step")
    ctx.check(all(0 <= x < n for x in xs), "steps of the result")
    ctx.check(xs[-1] + xs[1] >= n, "to the end")
    ctx.check(50 <= len(xs) <= 200, "about a hundred points")
    before, after = {0: {OCC: "A"}, 1: {OCC: "A"}}, {0: {OCC: "A"}, 1: {OCC: new}}
    _plot_is(ctx, fig, xs, [before if x < when else after for x in xs], 0.01)


@harness("C20", quick=["state", "structure", "states", "results"],
         bounds="one analyzer asked again after its state, structure or result changed, or for another state; two sites of any phases and values "
                "and a third one that comes later")
def asked_again(ctx, what):
    struct = PeriodicStructure(lattice("rect")[0])
    ids = [struct.add_site(c, (0.25 * k, 0.5)) for k, c in enumerate("AB")]
    cls = {ids[0]: "A", ids[1]: "B"}
    st, vals = _state(ctx, ids, keys=())
    for i, v in vals.items():
        v["x"] = 4 * i
        st.set_site_state(i, {"x": 4 * i})
    ans = [DiscreteStepAnalyzer(structure=struct), DiscreteStepAnalyzer()]
    lo = ctx.int("lo", -9, 9)

    def ask(state, vals, n):
        for an, structured in zip(ans, (True, False)):
            sites = [(i, v) for i, v in vals.items() if not structured or i in cls]
            for p in PHASES:
                k = count([v[OCC] == p for _, v in vals.items()])
                if len(sites) == len(vals):
                    ctx.check(an.cell_count(state, p) == k, f"time {n}: the number of sites of each phase")
                    ctx.check(near(an.cell_fraction(state, p) * len(vals), k), f"time {n}: the fraction of each phase")
            _exactly(ctx, an.phases_present(state), [(p, _count(vals, p) > 0) for p in PHASES], f"time {n}: phases present")
            ctx.check(an.phase_count(state) == count([_count(vals, p) > 0 for p in PHASES]), f"time {n}: number of phases present")
            for c in ((None, "A", "B", "C") if structured else (None,)):
                wanted = [(i, AND(c is None or cls[i] == c, v["x"] >= lo)) for i, v in sites]
                _exactly(ctx, an.get_sites(state, site_class=c, state_criteria=[lambda s: s["x"] >= lo]), wanted, f"time {n}: filtering")
                wanted = [(i, AND(c is None or cls[i] == c, v[OCC] == "A")) for i, v in sites]
                _exactly(ctx, an.get_sites_where_equal(state, {OCC: "A"}, site_class=c), wanted, f"time {n}: searching")
                ctx.check(an.get_site_count(state, site_class=c) == len([i for i, _ in sites if c is None or cls[i] == c]), f"time {n}: counting")

    if what == "results":
        res = SimulationResult(st)
        ra = DiscreteResultAnalyzer(res)
        steps = [vals]
        for n in range(3):
            for t, v in enumerate(steps):
                _fractions(ctx, lambda p: ra.phase_fraction_at(t, p), v, f"fractions at step {t}")
            _exactly(ctx, list(ra.all_phases()), [(p, _present(steps, p)) for p in PHASES], "all phases so far")
            fin = ra.final_phase_fractions()
            _fractions(ctx, lambda p: fin.get(p, 0), steps[-1], "final fractions so far")
            new = ctx.enum(f"n{n}", PHASES) if n < 2 else "A"
            res.add_step({ids[n % 2]: {OCC: new}})
            steps.append({i: dict(v, **({OCC: new} if i == ids[n % 2] else {})) for i, v in steps[-1].items()})
        return
    ask(st, vals, 0)
    new, x = ctx.enum("new", PHASES), ctx.int("x", -9, 9)
    if what == "state":
        how = ctx.pick("how", ["set", "batch"])
        if how == "set":
            st.set_site_state(ids[1], {OCC: new, "x": x})
        else:
            st.batch_update({ids[1]: {OCC: new, "x": x}})
        vals[ids[1]] = {OCC: new, "x": x}
        ask(st, vals, 1)
        ask(st.copy(), vals, 2)
    elif what == "structure":
        # a structure may be added to as long as it is not complete
        i = struct.add_site(ctx.pick("class", ["A", "C"]), (0.75, 1.5))
        cls[i] = struct.site_class(i)
        st.set_site_state(i, {OCC: new, "x": x})
        vals[i] = {OCC: new, "x": x}
        ask(st, vals, 1)
    else:
        other = SimulationState()
        ovals = {ids[0]: {OCC: new, "x": x}, ids[1]: {OCC: "VACANT", "x": 0}}
        for i, v in ovals.items():
            other.set_site_state(i, dict(v))
        ask(other, ovals, 1)
        ask(st, vals, 2)
