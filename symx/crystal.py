"""Plain records standing in for pymatgen's crystals while solving; replays use pymatgen."""
import numpy as np

from .arrays import arr as mkarr
from .engine import Unsupported


class CLattice:
    def __init__(self, matrix, pbc=(True, True, True)):
        self.matrix = np.array(getattr(matrix, "matrix", matrix), dtype=np.float64).reshape((3, 3))
        self.pbc = tuple(bool(p) for p in pbc)

    a = property(lambda s: float(np.linalg.norm(s.matrix[0])))
    b = property(lambda s: float(np.linalg.norm(s.matrix[1])))
    c = property(lambda s: float(np.linalg.norm(s.matrix[2])))
    abc = lengths = property(lambda s: (s.a, s.b, s.c))
    inv_matrix = property(lambda s: np.linalg.inv(s.matrix))

    def get_cartesian_coords(self, f):
        return dot(f, self.matrix)

    def get_fractional_coords(self, c):
        return dot(c, self.inv_matrix)


def dot(v, m):
    return mkarr([sum(v[i] * float(m[i][j]) for i in range(3)) for j in range(3)])


class CSite:
    def __init__(self, species, frac, lattice):
        self.species_string = species
        self.specie = self.label = species
        self.frac_coords = mkarr(list(frac))
        self.lattice = lattice
        self.coords = lattice.get_cartesian_coords(self.frac_coords)

    a, b, c = (property(lambda s, k=k: s.frac_coords[k]) for k in range(3))
    x, y, z = (property(lambda s, k=k: s.coords[k]) for k in range(3))

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"site.{n}")


class CStructure:
    def __init__(self, lattice, species, coords, charge=None, validate_proximity=False, to_unit_cell=False,
                 coords_are_cartesian=False, site_properties=None, labels=None, properties=None):
        self.lattice = lattice if isinstance(lattice, CLattice) else CLattice(lattice)
        if len(species) != len(coords):
            raise ValueError("atomic species and fractional coordinates must have same length")
        if to_unit_cell or validate_proximity:
            raise Unsupported("options of Structure")
        self.sites = [CSite(s, self.lattice.get_fractional_coords(c) if coords_are_cartesian else c, self.lattice)
                      for s, c in zip(species, coords)]

    def __iter__(self):
        return iter(self.sites)

    def __len__(self):
        return len(self.sites)

    def __getitem__(self, i):
        return self.sites[i]

    num_sites = property(len)
    frac_coords = property(lambda s: [x.frac_coords for x in s.sites])
    cart_coords = property(lambda s: [x.coords for x in s.sites])
    species = property(lambda s: [x.specie for x in s.sites])

    @classmethod
    def from_sites(cls, sites, *a, **kw):
        return cls(sites[0].lattice, [s.species_string for s in sites], [s.frac_coords for s in sites])

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"structure.{n}")


def install(symbolic):
    if symbolic:
        import pymatgen.core
        import pymatgen.core.lattice as lm
        import pymatgen.core.structure as sm

        pymatgen.core.Structure = sm.Structure = CStructure
        pymatgen.core.Lattice = lm.Lattice = sm.Lattice = CLattice
        sm.IStructure = CStructure
