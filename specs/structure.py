"""Reference: crystal structures read from, written to and transformed as per-site records."""
import numpy as np
from collections import Counter
from pymatgen.core import Structure
from matersdk.io.pwmat.utils.acextractor import ACExtractor, ACstrExtractor
from matersdk.io.pwmat.utils.parameters import specie2atomic_number
from matersdk.io.publicLayer.structure import DStructure


def read_file(cls, path, kind):
    if kind == "pwmat":
        x = ACExtractor(file_path=path)
        s = Structure(lattice=x.basis_vectors.reshape(3, 3), species=x.types.flatten(), coords=x.coords.reshape(-1, 3), coords_are_cartesian=False)
    else:
        s = Structure.from_file(filename=path)
    s.__class__ = cls
    return s


def read_text(cls, text, kind, cart):
    if kind != "pwmat":
        raise ValueError("format")
    x = ACstrExtractor(atom_config_str=text)
    s = Structure(lattice=x.get_basis_vectors().reshape(3, 3), species=x.get_types().flatten(), coords=x.get_coords().reshape(-1, 3), coords_are_cartesian=cart)
    s.__class__ = cls
    return s


def write(self, path, moments):
    with open(path, "w") as f:
        f.write("  {0} atoms\n".format(self.num_sites))
        f.write("Lattice vector (Angstrom)\n")
        for i in range(3):
            f.write("   {0:<14E}    {1:<14E}    {2:<14E}\n".format(self.lattice.matrix[i, 0], self.lattice.matrix[i, 1], self.lattice.matrix[i, 2]))
        f.write("Position (normalized), move_x, move_y, move_z\n")
        for i in range(self.num_sites):
            z = specie2atomic_number[str(self.species[i])]
            f.write("  {0:<2d}         {1:<10f}         {2:<10f}         {3:<10f}     1  1  1\n".format(z, self.frac_coords[i, 0], self.frac_coords[i, 1], self.frac_coords[i, 2]))
        if moments:
            f.write("Magnetic\n")
            for i in range(self.num_sites):
                f.write("  {0:<3d} {1:<.2f}\n".format(specie2atomic_number[str(self.species[i])], self.site_properties["magmom"][i]))


def vacuum(self):
    out = []
    for d in range(3):
        span = np.max(self.cart_coords[:, d]) - np.min(self.cart_coords[:, d])
        out.append(self.lattice.abc[d] - span > 10)
    return out


def by_elements(self, order):
    sites = [s for e in order for s in self.sites if str(s.specie) == e]
    return DStructure(lattice=self.lattice.matrix, species=[s.specie for s in sites], coords=[s.frac_coords for s in sites],
                      coords_are_cartesian=False, site_properties={"magmom": [s.magmom for s in sites]})


def by_number(self):
    self.sites.sort(key=lambda s: specie2atomic_number[str(s.specie)])


def drop_vacancies(self):
    gone = []
    for i, s in enumerate(self.sites):
        if str(s.specie) == "X0+":
            gone.append(i)
    self.remove_sites(indices=gone)


def supercell(self, n, reorder):
    """image 0 is the undisplaced cell; every other image shifted by a lattice vector, all sites of an image contiguous"""
    box = np.dot(np.eye(3) * n, self.lattice.matrix)
    g = np.meshgrid(np.arange(n[0]), np.arange(n[1]), np.arange(n[2]), indexing="ij")
    shifts = np.vstack([g[0].ravel() - (n[0] - 1) / 2, g[1].ravel() - (n[1] - 1) / 2, g[2].ravel() - (n[2] - 1) / 2]).T
    shifts = np.insert(shifts[np.any(shifts != np.array([0, 0, 0]), axis=1)], 0, np.array([0, 0, 0]), axis=0)
    xyz = np.array([self.cart_coords + np.sum(np.dot(s * np.eye(3), self.lattice.matrix), axis=0) for s in shifts]).reshape(-1, 3)
    kinds = self.species * n[0] * n[1] * n[2]
    assert len(kinds) == xyz.shape[0]
    out = DStructure(lattice=box, species=kinds, coords=xyz, coords_are_cartesian=True)
    if reorder:
        out.reformat_elements_()
    return out


def supercell_rank(self, n):
    cell = self.make_supercell_(scaling_matrix=n, reformat_mark=False)
    order = [i for i, s in sorted(enumerate(cell.sites), key=lambda p: specie2atomic_number[str(p[1].specie)])]
    return {order[i]: order.index(order[i]) for i in range(len(order))}


def key_sites(self, n):
    rank = self._get_bidx2aidx_supercell(scaling_matrix=n)
    return np.array(sorted([rank[i] for i in range(self.num_sites)], key=lambda i: i))


def forces(self):
    return np.array([s.atomic_force for s in self.sites])


def energies(self):
    return np.array([s.atomic_energy[0] for s in self.sites])


def locate(self, xyz):
    """1-based index of the site that differs from xyz by a lattice vector, 0 if none"""
    for i, c in enumerate(self.cart_coords):
        u = np.linalg.inv(self.lattice.matrix.T) @ (xyz - c)
        if abs(u[0] - int(round(u[0]))) <= 1e-10 and abs(u[1] - int(round(u[1]))) <= 1e-10 and abs(u[2] - int(round(u[2]))) <= 1e-10:
            return i + 1
    return 0


def centroid(self):
    return np.sum(self.cart_coords, axis=0) / self.num_sites


def counts(self, order):
    c = Counter([s.Z for s in self.species])
    if not order:
        order = sorted(c.keys())
    return np.array([self.num_sites] + [c[z] for z in order])
