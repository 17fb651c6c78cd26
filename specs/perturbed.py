"""Random perturbation of a structure."""
import os
import numpy as np
from matersdk.io.publicLayer.structure import DStructure
from matersdk.adalearn.generator.perturbation import PerturbStructure


def strain(self, fraction):
    if fraction < 0:
        raise RuntimeError
    e = (np.random.rand(6) * 2 - 1) * fraction
    return np.array([[1 + e[0], 0.5 * e[5], 0.5 * e[4]],
                     [0.5 * e[5], 1 + e[1], 0.5 * e[3]],
                     [0.5 * e[4], 0.5 * e[3], 1 + e[2]]])


def kick(self, distance):
    if distance < 0:
        raise RuntimeError
    return distance * np.random.randn(3) / np.sqrt(3)


def rotated(self, atoms):
    q, r = np.linalg.qr(atoms.cell.T)
    if np.linalg.det(q) < 0:
        q = -q
    cell = np.matmul(atoms.cell, q)
    coords = np.matmul(atoms.coords, q)
    flip = np.eye(3)
    for k in (0, 1, 2):
        if cell[k][k] < 0:
            flip[k][k] = -1
    return DStructure(lattice=np.matmul(cell, flip), species=atoms.species, coords=np.matmul(coords, flip), coords_are_cartesian=True)


def perturbed(self, n, fraction, distance):
    out = []
    for _ in range(n):
        s = self.atoms.copy()
        m = self.get_cell_perturb_matrix(fraction)
        s.cell = np.matmul(s.lattice.matrix, m)
        s.coords = np.matmul(s.cart_coords, m)
        for k in range(len(s.coords)):
            s.coords[k] += self.get_atom_perturb_vector(distance)
        out.append(self.rot_lower_triangular(s))
    return out


def batch(systems, n, fraction, distance):
    for name in systems:
        made = PerturbStructure(DStructure.from_file(name + "/atom.config", "pwmat")).perturb(pert_num=n, cell_pert_fraction=fraction, atom_pert_distance=distance)
        if not os.path.exists(name + "/structures"):
            os.mkdir(os.path.join(name, "structures"))
        for k, s in enumerate(made):
            s.to(file_path=os.path.join(name, "structures", "{0}.config".format(k)), file_format="pwmat")
