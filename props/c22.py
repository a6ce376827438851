"""Conversion to and from pymatgen."""
import itertools

from symx import crystal, env
from symx.api import AND, OR, harness
from props.util import OCC, SITE_CLASS, SITE_ID, cart, near, nearv

crystal.install(env.SYMBOLIC)

from pymatgen.core.lattice import Lattice as PmgLattice  # noqa: E402
from pymatgen.core.structure import Structure as PmgStructure  # noqa: E402

from pylattica.atomic.pymatgen_struct_converter import PymatgenStructureConverter  # noqa: E402
from pylattica.core import Lattice, StructureBuilder  # noqa: E402

ALL = (True, True, True)
CELLS = {
    "cube": (((4, 0, 0), (0, 4, 0), (0, 0, 4)), ALL),
    "box": (((2, 0, 0), (0, 3, 0), (0, 0, 5)), ALL),
    "turned": (((0, 3, 0), (0, 0, 2), (4, 0, 0)), ALL),
    "triclinic": (((2, 0, 0), (1, 2, 0), (0, 1, 3)), ALL),
    "hexagonal": (((3.24, 0, 0), (-1.62, 1.62 * 3 ** 0.5, 0), (0, 0, 5.2)), ALL),
    "slab": (((2, 0, 0), (1, 3, 0), (0, 0, 4)), (True, True, False)),
    "wire": (((2, 0, 0), (0, 3, 0), (0, 0, 4)), (False, True, False)),
}
DEN = {"hexagonal": 12}


def _den(name):
    return DEN.get(name, 8)


def _lattice(name):
    m, pbc = CELLS[name]
    return PmgLattice([list(v) for v in m]) if pbc == ALL else PmgLattice([list(v) for v in m], pbc=pbc)


def _same_place(f, g, pbc, tol=0.002):
    """Fractional coordinates that are the same, up to whole cells along periodic directions."""
    return AND([OR([near(a - b, k, tol) for k in ((-3, -2, -1, 0, 1, 2, 3) if p else (0,))]) for a, b, p in zip(f, g, pbc)])


def _atoms(ctx, species, free, name):
    """Numerators of fractional coordinates, some of them free, all different places."""
    pbc, den = CELLS[name][1], _den(name)
    fixed = [[1, 2, 0], [5, 3, 4], [0, 6, 7], [3, 3, 3]]
    at = []
    for n in range(len(species)):
        k = list(fixed[n])
        for f in free:
            if int(f[0]) == n:
                d = "xyz".index(f[1])
                k[d] = ctx.int(f"a{n}{'xyz'[d]}", -den - 1, 2 * den) if pbc[d] else ctx.int(f"a{n}{'xyz'[d]}", -2, den + 2)
        at.append(k)
    for i in range(len(at)):
        for j in range(i):
            ctx.assume(OR([(a - b) % den != 0 if p else a != b for a, b, p in zip(at[i], at[j], pbc)]))
    return at


def _frac(ctx, k, name):
    return [ctx.scaled(x, _den(name)) for x in k]


@harness("C22", quick=[("cube", ("Na", "Cl"), ("0x", "0y", "0z")), ("box", ("O", "O"), ("0x", "1z")), ("turned", ("Fe", "O"), ("0x", "0z")),
                       ("triclinic", ("Na+", "Cl-", "Na+"), ("0y", "1x", "2z")), ("hexagonal", ("Zr", "Zr"), ("0x", "0y", "0z")),
                       ("slab", ("C", "O"), ("0x", "0z", "1x")), ("wire", ("C", "C"), ("0x", "0z", "1y")), ("cube", ("U",), ("0x", "0y")),
                       ("triclinic", ("Na", "Cl"), ("0x", "0y", "0z", "1x", "1y", "1z"))],
         thorough=[("hexagonal", ("Zr", "O", "Zr"), ("0x", "0y", "1x", "1y", "2z")),
                   ("box", ("Na", "Cl", "Na", "Cl"), ("0x", "1y", "2z")), ("slab", ("C", "O"), ("0x", "0y", "0z")), ("wire", ("C", "N", "O"), ("0x", "1y", "2z"))],
         bounds="seven cells, one to three atoms (thorough: four) of one or two species, two to six coordinates anywhere from one cell below to one "
                "above in steps of an eighth (hexagonal cell: a twelfth), the others fixed; there and back")
def crystals(ctx, cfg):
    name, species, free = cfg
    vecs, pbc = CELLS[name]
    at = _atoms(ctx, species, free, name)
    pmg = PmgStructure(_lattice(name), list(species), [_frac(ctx, k, name) for k in at])
    conv = PymatgenStructureConverter()
    struct, state = conv.to_pylattica_structure_and_state(pmg)
    ctx.check(len(struct.site_ids) == len(species) and state.size == len(species), "one site and one occupancy per atom")
    ids = []
    for s, k in zip(species, at):
        site = struct.site_at(cart(vecs, _frac(ctx, k, name)))
        ctx.check(site is not None, "a site at each atom's position")
        ctx.check(site[SITE_CLASS] == s, "of the atom's species")
        ctx.check(state.get_site_state(site[SITE_ID])[OCC] == s, "with the species for its occupancy")
        ids.append(site[SITE_ID])
    ctx.check(len(set(ids)) == len(ids), "a site of its own for each atom")
    ctx.check(AND([nearv(list(a), b) for a, b in zip(struct.lattice.vecs, vecs)]), "the same cell")
    ctx.check(tuple(bool(p) for p in struct.lattice.periodic) == pbc, "repeating in the same directions")
    back = conv.to_pymatgen_structure(struct)
    _is(ctx, back, vecs, pbc, [(s, _frac(ctx, k, name)) for s, k in zip(species, at)], "back")
    ctx.check(len(pmg) == len(species), "the original stays")


def _is(ctx, pmg, vecs, pbc, atoms, what):
    ctx.check(pmg.num_sites == len(atoms), f"{what}: as many atoms")
    ctx.check(AND([nearv(list(a), list(b)) for a, b in zip(pmg.lattice.matrix, vecs)]), f"{what}: the same cell")
    ctx.check(tuple(bool(p) for p in pmg.lattice.pbc) == pbc, f"{what}: repeating in the same directions")
    for s, f in atoms:
        ctx.check(OR([_same_place(site.frac_coords, f, pbc) for site in pmg.sites if site.species_string == s]),
                  f"{what}: an atom of each species at each place")


@harness("C22", quick=[("box", ("Na", "Cl"), ("0x",), (2, 1, 1)), ("turned", ("O", "O"), ("0y",), (1, 2, 1)), ("cube", ("U",), ("0z",), 2),
                       ("hexagonal", ("Zr", "O"), ("1y",), (1, 1, 2)), ("slab", ("C",), ("0z",), (2, 1, 2))],
         thorough=[("triclinic", ("Na", "Cl"), ("0x", "0y"), (2, 1, 1)), ("cube", ("Na", "Cl"), ("0x",), 2), ("wire", ("C", "O"), ("0y",), (1, 3, 1))],
         bounds="five (thorough: seven) cells repeated once or twice (thorough: three times) in each direction, one or two atoms, one coordinate (thorough: "
                "two) free; there and back")
def repeated(ctx, cfg):
    name, species, free, reps = cfg
    vecs, pbc = CELLS[name]
    at = _atoms(ctx, species, free, name)
    if not all(pbc):
        # atoms of a cell that does not repeat lie inside it
        for k in at:
            for d in range(3):
                ctx.assume(pbc[d] or AND(k[d] >= 0, k[d] < _den(name)))
    pmg = PmgStructure(_lattice(name), list(species), [_frac(ctx, k, name) for k in at])
    conv = PymatgenStructureConverter()
    struct = conv.to_pylattica_structure_builder(pmg).build(reps)
    reps = (reps,) * 3 if isinstance(reps, int) else reps
    cells = list(itertools.product(*[range(r) for r in reps]))
    ctx.check(len(struct.site_ids) == len(species) * len(cells), "every atom repeated in every cell")
    ids, atoms = set(), []
    for c in cells:
        for s, k in zip(species, at):
            f = [x + y for x, y in zip(_frac(ctx, k, name), c)]
            site = struct.site_at(cart(vecs, f))
            ctx.check(site is not None, "a site at each repeated atom's position")
            ctx.check(site[SITE_CLASS] == s, "of the atom's species")
            ids.add(site[SITE_ID])
            atoms.append((s, [x / r for x, r in zip(f, reps)]))
    ctx.check(len(ids) == len(atoms), "a site of its own for each")
    big = [tuple(r * x for x in v) for r, v in zip(reps, vecs)]
    ctx.check(AND([nearv(list(a), b) for a, b in zip(struct.lattice.vecs, big)]), "in a cell that much larger")
    _is(ctx, conv.to_pymatgen_structure(struct), big, pbc, atoms, "back")


@harness("C22", quick=[("box", (1, 2, 1)), ("triclinic", (1, 1, 1)), ("slab", (1, 1, 2)), ("wire", (1, 1, 1))],
         thorough=[("hexagonal", (2, 1, 1)), ("turned", (2, 2, 1))],
         bounds="structures built here from four cells (thorough: six), one site of a class anywhere along two directions and one fixed, one or two cells; "
                "to pymatgen and back")
def from_here(ctx, cfg):
    name, reps = cfg
    vecs, pbc = CELLS[name]
    k = [ctx.int("x", 0, _den(name) - 1), 3, ctx.int("z", 0, _den(name) - 1)]
    ctx.assume(OR(k[0] != 1, k[2] != 2))
    b = StructureBuilder(Lattice([tuple(v) for v in vecs], pbc), {"Si": [tuple(_frac(ctx, k, name))], "O": [tuple(_frac(ctx, [1, 3, 2], name))]})
    b.frac_coords = True
    struct = b.build(reps)
    conv = PymatgenStructureConverter()
    pmg = conv.to_pymatgen_structure(struct)
    big = [tuple(r * x for x in v) for r, v in zip(reps, vecs)]
    atoms = []
    for c in itertools.product(*[range(r) for r in reps]):
        for s, f in (("Si", _frac(ctx, k, name)), ("O", _frac(ctx, [1, 3, 2], name))):
            atoms.append((s, [(x + y) / r for x, y, r in zip(f, c, reps)]))
    _is(ctx, pmg, big, pbc, atoms, "to pymatgen")
    again, state = conv.to_pylattica_structure_and_state(pmg)
    ctx.check(len(again.site_ids) == len(atoms) == state.size, "as many sites")
    for i in struct.site_ids:
        s = struct.site_class(i)
        site = again.site_at(struct.site_location(i))
        ctx.check(site is not None, "every site found again")
        ctx.check(site[SITE_CLASS] == s, "of its class")
        ctx.check(state.get_site_state(site[SITE_ID])[OCC] == s, "with its class for its occupancy")


NAMES = ["H", "He", "Li", "Be", "B", "C", "N", "O", "F", "Ne", "Na+", "Mg2+", "Cl-", "U"]


@harness("C22", quick=[("box", 30, 1), ("triclinic", 14, (1, 3, 1)), ("hexagonal", 11, 1)], thorough=[("cube", 120, 1), ("box", 12, (3, 2, 2))],
         bounds="three cells of 11 to 30 atoms (thorough: 120) of up to 14 species, one of them anywhere along one direction, one or three cells (thorough: "
                "twelve); there and back")
def many_atoms(ctx, cfg):
    name, n, reps = cfg
    vecs, pbc = CELLS[name]
    den = _den(name)
    at = [(77 * k + 5) % den ** 3 for k in range(n)]
    at = [[a % den, a // den % den, a // den ** 2] for a in at]
    species = [NAMES[(k * k + k // 2) % len(NAMES)] for k in range(n)]
    at[n // 2][1] = ctx.int("y", -2, den + 1)
    for j in range(n):
        if j != n // 2 and all(at[j][d] == at[n // 2][d] for d in (0, 2)):
            ctx.assume((at[n // 2][1] - at[j][1]) % den != 0)
    pmg = PmgStructure(_lattice(name), species, [_frac(ctx, k, name) for k in at])
    conv = PymatgenStructureConverter()
    struct, state = conv.to_pylattica_structure_and_state(pmg)
    ctx.check(len(struct.site_ids) == n and state.size == n, "one site and one occupancy per atom")
    ids = []
    for s, k in zip(species, at):
        site = struct.site_at(cart(vecs, _frac(ctx, k, name)))
        ctx.check(site is not None, "a site at each atom's position")
        ctx.check(site[SITE_CLASS] == s, "of the atom's species")
        ctx.check(state.get_site_state(site[SITE_ID])[OCC] == s, "with the species for its occupancy")
        ids.append(site[SITE_ID])
    ctx.check(len(set(ids)) == n, "a site of its own for each atom")
    if reps != 1:
        struct = conv.to_pylattica_structure_builder(pmg).build(reps)
        r3 = reps
    else:
        r3 = (1, 1, 1)
    big = [tuple(r * x for x in v) for r, v in zip(r3, vecs)]
    atoms = [(s, [(x + y) / r for x, y, r in zip(_frac(ctx, k, name), c, r3)])
             for c in itertools.product(*[range(r) for r in r3]) for s, k in zip(species, at)]
    ctx.check(len(struct.site_ids) == len(atoms), "every atom repeated in every cell")
    _is(ctx, conv.to_pymatgen_structure(struct), big, pbc, atoms, "back")
