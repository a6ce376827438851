"""Independent reference models the harnesses compare against."""
from symx.api import AND, NOT, OR, same

SITES, GENERAL, SITE_ID, LOCATION, SITE_CLASS = "SITES", "GENERAL", "_site_id", "_location", "_site_class"
OCC = "DISCRETE_OCCUPANCY"


class RefState:
    """What a simulation state should hold: an association list of site id -> values."""

    def __init__(self):
        self.sites = []
        self.general = {}

    def of(self, sid):
        for s, vals in self.sites:
            if s == sid:
                return vals
        return None

    def write(self, sid, updates):
        vals = self.of(sid)
        if vals is None:
            vals = {SITE_ID: sid}
            self.sites.append((sid, vals))
        for k, v in updates.items():
            vals[k] = v

    def write_general(self, updates):
        for k, v in updates.items():
            self.general[k] = v

    def copy(self):
        r = RefState()
        r.sites = [(s, dict(v)) for s, v in self.sites]
        r.general = dict(self.general)
        return r


def state_is(ctx, state, ref, what):
    """state's public reading agrees with the reference."""
    ids = state.site_ids()
    ctx.check(len(ids) == len(ref.sites), f"{what}: one entry per site")
    ctx.check(state.size == len(ref.sites), f"{what}: size")
    for sid, vals in ref.sites:
        ctx.check(OR([sid == i for i in ids]), f"{what}: site is listed")
        got = state.get_site_state(sid)
        ctx.check(got is not None, f"{what}: site has a state")
        ctx.check(same(got, vals), f"{what}: site values")
    ctx.check(len(state.all_site_states()) == len(ref.sites), f"{what}: all_site_states")
    ctx.check(same(state.get_general_state(), ref.general), f"{what}: general values")


def make_state(ctx, ids, keys=("x",), general=("g",), ref=None):
    """A state over the given ids with symbolic values, and its reference."""
    from pylattica.core.simulation_state import SimulationState

    st, ref = SimulationState(), RefState()
    for n, i in enumerate(ids):
        up = {k: ctx.int(f"s{n}{k}") for k in keys}
        st.set_site_state(i, up)
        ref.write(i, up)
    g = {k: ctx.int(f"gen{k}") for k in general}
    if g:
        st.set_general_state(g)
        ref.write_general(g)
    return st, ref


def distinct(ctx, xs):
    for i in range(len(xs)):
        for j in range(i):
            ctx.assume(xs[i] != xs[j])


# ---------------------------------------------------------------- geometry
R3 = 3 ** 0.5
LATTICES = {
    "line": (((2,),), (True,)),
    "line-open": (((2,),), (False,)),
    "square": (((0, 1), (1, 0)), (True, True)),
    "rect": (((2, 0), (0, 3)), (True, True)),
    "rect-half": (((2, 0), (0, 3)), (True, False)),
    "rect-open": (((2, 0), (0, 3)), (False, False)),
    "skew": (((2, 0), (1, 2)), (True, True)),
    "skew-half": (((2, 1), (-1, 3)), (False, True)),
    "sheared": (((1, 0), (3, 1)), (True, True)),
    "long": (((3, 0), (4, 1)), (True, True)),
    "lower": (((1, 2), (3, -1)), (True, True)),
    "quarter": (((0.25, 0), (0, 0.5)), (True, True)),
    "thirds": (((1 / 3, 0), (0, 0.7)), (True, True)),
    "honeycomb": (((1, 0), (0.5, R3 / 2)), (True, True)),
    "cube": (((0, 1, 0), (1, 0, 0), (0, 0, 1)), (True, True, True)),
    "slab": (((2, 0, 0), (0, 2, 0), (0, 0, 3)), (True, True, False)),
    "triclinic": (((2, 0, 0), (1, 2, 0), (0, 1, 3)), (True, True, True)),
    "tri-rod": (((2, 0, 1), (1, 2, 0), (0, 1, 3)), (False, False, True)),
    "needle": (((100, 0), (0, 1)), (True, True)),
    "plate": (((0.1, 0, 0), (0, 40, 0), (0, 0, 0.1)), (True, False, True)),
    "skew-first": (((2, 0), (3, 1)), (True, False)),
    "skew-last": (((2, 0), (3, 1)), (False, True)),
    "steep": (((1, 0), (7, 1)), (True, True)),
}


def decoys(vecs, per):
    """Lattices that share lengths, vectors or periodicity with this one, already used: nothing worked out for
    one lattice may be taken for another."""
    from pylattica.core.lattice import Lattice

    turned = [tuple(reversed(v)) for v in vecs]
    mirrored = [tuple(-x if j else x for j, x in enumerate(v)) for v in vecs]
    out = []
    for vs, ps in ((turned, per), (mirrored, per), (list(reversed(vecs)), tuple(reversed(per))),
                   (vecs, tuple(not p for p in per)), ([tuple(2 * x for x in v) for v in vecs], per)):
        lat = Lattice([tuple(v) for v in vs], tuple(ps))
        use(lat)
        out.append(lat)
    return out


def use(lat):
    """Asks a lattice for everything it may remember."""
    n = lat.dim
    p, q = [0.3 + i for i in range(n)], [2.6 - 1.3 * i for i in range(n)]
    lat.get_fractional_coords(p)
    lat.get_periodized_cartesian_coords(p)
    lat.cartesian_periodic_distance(p, q)
    lat.get_scaled_lattice([2] * n).get_fractional_coords(q)


def lattice(name):
    from pylattica.core.lattice import Lattice

    vecs, per = LATTICES[name]
    decoys(vecs, per)
    return Lattice([tuple(v) for v in vecs], tuple(per)), vecs, per


def cart(vecs, f):
    """Cartesian coordinates of fractional ones, computed here."""
    return tuple(sum(f[i] * vecs[i][j] for i in range(len(vecs))) for j in range(len(vecs[0])))


def near(a, b, tol=1e-6):
    return AND(a - b <= tol, b - a <= tol)


def nearv(a, b, tol=1e-6):
    a, b = list(a), list(b)
    return AND([near(x, y, tol) for x, y in zip(a, b)]) if len(a) == len(b) else False


def grid_point(ctx, name, dim, lo, hi, den=8):
    """Integer numerators of a point on the grid of step 1/den (fractional coordinates)."""
    return [ctx.int(f"{name}{i}", lo * den, hi * den) for i in range(dim)]


def congruent(k, l, per, den=8):
    """Are two grid points the same up to periodic images?"""
    return AND([(a - b) % den == 0 if p else a == b for a, b, p in zip(k, l, per)])


