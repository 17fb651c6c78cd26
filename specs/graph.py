"""Periodic adjacency: counts of neighbours over the images of a supercell."""
import itertools
import numpy as np


class Adj(object):
    def __init__(self, structure, rcut, scaling):
        for k in (0, 1, 2):
            assert scaling[k] > 0 and scaling[k] % 2 != 0
        self.structure = structure
        self.rcut = rcut
        self.scaling_matrix = scaling


def images(self):
    half = [int((self.scaling_matrix[k] - 1) / 2) for k in (0, 1, 2)]
    cells = np.array(list(itertools.product(list(range(-half[0], half[0] + 1)), list(range(-half[1], half[1] + 1)), list(range(-half[2], half[2] + 1))))).T
    n = self.scaling_matrix[0] * self.scaling_matrix[1] * self.scaling_matrix[2]
    return np.repeat(np.array(self.structure.frac_coords)[:, :, np.newaxis], n, axis=2) - np.repeat(cells[np.newaxis, :, :], 1, axis=0)


def adjacency(self):
    n = self.structure.num_sites
    there = self._get_shifted_supercell_frac_coords()
    here = np.repeat(self.structure.frac_coords[:, :, np.newaxis], 1, axis=-1)
    out = np.zeros((n, n))
    for i in range(n):
        for j in range(i, n):
            hits = sum(np.linalg.norm(np.dot(self.structure.lattice.matrix.T, there[j] - here[i]), axis=0) <= self.rcut)
            if hits > 0:
                out[i, j] = hits
                out[j, i] = hits
    return out - np.eye(n)
