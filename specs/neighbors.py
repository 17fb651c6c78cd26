"""Reference: neighbour tables around the atoms of the central cell."""
import numpy as np
from matersdk.io.pwmat.utils.parameters import specie2atomic_number
from matersdk.io.publicLayer.neigh import StructureNeighborsUtils


def positions(cell, cart):
    if cart:
        return cell.cart_coords
    return cell.frac_coords


def count_max(structure, rcut, scale, cart):
    """largest number of other atoms inside the closed cutoff sphere"""
    centers = structure.get_key_idxs(scaling_matrix=scale)
    xyz = positions(structure.make_supercell_(scaling_matrix=scale, reformat_mark=True), cart)
    best = 0
    for c in centers:
        r = np.linalg.norm(xyz - xyz[c].reshape(1, 3), axis=1)
        n = np.count_nonzero(r <= rcut)
        if n > best:
            best = n
    return best - 1


def count_max_by_element(structure, rcut, elements, scale, cart):
    centers = structure.get_key_idxs(scaling_matrix=scale)
    cell = structure.make_supercell_(scaling_matrix=scale, reformat_mark=True)
    xyz = positions(cell, cart)
    zs = np.array([s.Z for s in cell.species])
    best = dict.fromkeys(elements, 0)
    for c in centers:
        r = np.linalg.norm(xyz - xyz[c].reshape(1, 3), axis=1)
        for e in elements:
            hit = (zs == specie2atomic_number[e]) & (r <= rcut)
            hit[c] = False
            n = np.count_nonzero(hit)
            if n > best[e]:
                best[e] = n
    return best


def table(self, scale, rcut, cart):
    return rows(self.structure, self.supercell, scale, rcut, cart)


def rows(structure, cell, scale, rcut, cart):
    """row per central atom, itself first, then by distance, every array in the same order, zero beyond the neighbours"""
    centers = structure.get_key_idxs(scaling_matrix=scale)
    zs = np.array([s.specie.Z for s in cell.sites])
    xyz = positions(cell, cart)
    total = zs.shape[0]
    Z = np.zeros((len(centers), total))
    R = np.zeros((len(centers), total))
    X = np.zeros((len(centers), total, 3))
    width = 0
    for i, c in enumerate(centers):
        r = np.linalg.norm(xyz - xyz[c].reshape(1, 3), axis=1)
        n = np.count_nonzero(r <= rcut)
        if n > width:
            width = n
        near = np.argsort(r)[:n]
        Z[i, :n] = zs[near]
        R[i, :n] = r[near]
        X[i, :n, :] = xyz[near, :]
    return Z[:, :width], R[:, :width], X[:, :width, :]


class Tables(object):
    def __init__(self, structure, rcut, scale, reorder, cart):
        self.structure = structure
        self.supercell = structure.make_supercell_(scaling_matrix=scale, reformat_mark=reorder)
        Z, R, X = rows(structure, self.supercell, scale, rcut, cart)
        self.key_nbr_atomic_numbers = Z
        self.key_nbr_distances = R
        self.key_nbr_coords = X


def indices(nbr, zc, zn, width):
    """1-based site index of every neighbour of species zn around every centre of species zc, zero padded"""
    Z = nbr.key_nbr_atomic_numbers
    X = nbr.key_nbr_coords
    center = np.repeat(np.where(Z[:, 0] == zc, True, False)[:, np.newaxis], Z.shape[1], axis=1)
    hit = center & np.where(Z == zn, True, False)
    hit[:, 0] = False
    real = np.max(np.count_nonzero(hit, axis=1))
    rows = np.where(np.count_nonzero(center, axis=1), True, False)
    n_rows = np.count_nonzero(rows)
    pos = np.zeros((n_rows, real, 3))
    counts = []
    k = 0
    for i in range(X.shape[0]):
        m = hit[i, :]
        if rows[i]:
            n = np.count_nonzero(m)
            pos[k, :n, :] = X[i][m][:]
            counts.append(n)
            k += 1
    assert k == n_rows
    out = np.array([[nbr.structure.get_site_index(site_coord=x) if j < counts[i] else 0 for j, x in enumerate(p)] for i, p in enumerate(pos)])
    if width:
        padded = np.zeros((out.shape[0], width))
        for i in range(out.shape[0]):
            padded[i, :real] = out[i]
        return padded
    return out


def all_indices(nbr, zcs, zns, widths):
    return np.concatenate([np.concatenate([StructureNeighborsUtils._get_nbrs_indices(struct_nbr=nbr, center_atomic_number=c, nbr_atomic_number=z, max_num_nbrs=widths[j])
                                           for j, z in enumerate(zns)], axis=1) for c in zcs], axis=0)
