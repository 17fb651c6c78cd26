"""Reference: DeepPot-SE environment matrix from neighbour tables."""
import numpy as np
import h5py
from matersdk.feature.deepmd.premise import DpFeaturePairPremiseV1
from matersdk.feature.deepmd.se_pair import DpseTildeRPairV1
from matersdk.io.publicLayer.neigh import StructureNeighborsV1
from matersdk.feature.deepmd.preprocess import TildeRNormalizer, TildeRPairNormalizer, NormalizerPremise


def pair(nbr, zc, zn):
    """species, distances and coordinates relative to the centre of the zn neighbours of the zc centres"""
    Z = nbr.key_nbr_atomic_numbers
    R = nbr.key_nbr_distances
    X = nbr.key_nbr_coords
    width = Z.shape[1]
    center = np.repeat(np.array(Z[:, 0] == zc).reshape(-1, 1), width, axis=1)
    hit = center & (Z == zn)
    hit[:, 0] = False
    widest = np.max(np.count_nonzero(hit, axis=1))
    rows = np.where(np.count_nonzero(center, axis=1), True, False)
    n_rows = np.count_nonzero(rows)
    an = np.zeros((n_rows, widest))
    d = np.zeros((n_rows, widest))
    rc = np.zeros((n_rows, widest, 3))
    origin = X[:, 0, :]
    rel = X - np.repeat(origin[:, np.newaxis, :], 1, axis=1)
    k = 0
    for i in range(rel.shape[0]):
        m = hit[i, :]
        if rows[i]:
            n = np.count_nonzero(m)
            an[k, :n] = Z[i][m]
            d[k, :n] = R[i][m]
            rc[k, :n, :] = rel[i][m][:]
            k += 1
    assert k == n_rows
    return an, d, rc


def padded_rc(self, zc, zn, width):
    rc = self.extract_feature_pair(center_atomic_number=zc, nbr_atomic_number=zn)[2]
    assert width >= rc.shape[1]
    out = np.zeros((rc.shape[0], width, 3))
    out[:, :rc.shape[1], :] = rc
    return out


def inverse(d):
    return np.where(d == 0, 0, np.reciprocal(d))


def weight(d, rcut, smooth):
    """1/r, smoothly switched off between smooth and rcut, 0 outside and for padding"""
    u = (d - smooth) / (rcut - smooth)
    inv = inverse(d)
    s = np.where((d > smooth) & (d < rcut), inv * (u ** 3 * (-6 * u ** 2 + 15 * u - 10) + 1), inv)
    return np.where(d < rcut, s, 0)


def tilde(self, rcut, smooth):
    d, rc = self.dp_feature_pair_d, self.dp_feature_pair_rc
    s = np.repeat(weight(d, rcut, smooth)[:, :, np.newaxis], 1, axis=2)
    inv = np.repeat(inverse(d)[:, :, np.newaxis], 1, axis=2)
    return np.concatenate([s, s * inv * rc], axis=2)


def tilde_padded(self, width):
    t = self.dp_feature_pair_tildeR
    out = np.zeros((t.shape[0], width, 4))
    out[:, :t.shape[1], :] = t
    return out


def slope(self):
    """derivative of (s, s x/r, s y/r, s z/r) with respect to the centre, i.e. minus the derivative with respect to the neighbour"""
    d, rc, rcut, smooth = self.dp_feature_pair_d, self.dp_feature_pair_rc, self.rcut, self.rcut_smooth
    u = (d - smooth) / (rcut - smooth)
    v = np.where(d < smooth, 1, u ** 3 * (-6 * u ** 2 + 15 * u - 10) + 1)
    v = np.where(d < rcut, v, 0)
    dv = np.where(d < smooth, 0, (-30 * u ** 4 + 60 * u ** 3 - 30 * u ** 2) / (rcut - smooth))
    dv = np.where(d < rcut, dv, 0)
    i = inverse(d)
    out = np.zeros(shape=(d.shape[0], d.shape[1], 4, 3))
    for k in range(3):
        out[:, :, 0, k] = v * rc[:, :, k] * i ** 3 - dv * rc[:, :, k] * i ** 2
    for c in range(3):
        for k in range(3):
            radial = 2 * rc[:, :, c] * rc[:, :, k] * i ** 4
            if c == k:
                radial = radial - i ** 2
            out[:, :, c + 1, k] = v * radial - dv * rc[:, :, c] * rc[:, :, k] * i ** 3
    return out


def slope_padded(self, width):
    t = self.dp_feature_pair_tildeR
    out = np.zeros((t.shape[0], width, 4, 3))
    out[:, :t.shape[1], :, :] = self._calc_derivative()
    return out


class Pair(object):
    def __init__(self, nbr, zc, zn, rcut, smooth):
        self.rcut = rcut
        self.rcut_smooth = smooth
        an, d, rc = DpFeaturePairPremiseV1(structure_neighbors=nbr).extract_feature_pair(center_atomic_number=zc, nbr_atomic_number=zn)
        self.dp_feature_pair_an = an
        self.dp_feature_pair_d = d
        self.dp_feature_pair_rc = rc
        self.dp_feature_pair_tildeR = tilde(self, rcut, smooth)


def flat(nbr, zcs, zns, sel, rcut, smooth):
    """every centre species, then every neighbour species, each padded to its own width"""
    parts = []
    for c in zcs:
        for j, z in enumerate(zns):
            t = DpseTildeRPairV1(nbr, c, z, rcut, smooth).dp_feature_pair_tildeR
            e = np.zeros((t.shape[0], sel[j], t.shape[2]))
            e[:, :t.shape[1], :] = t
            parts.append(e.flatten())
    return np.concatenate(parts)


# ---- normalisation -------------------------------------------------------------------------------------

def std(s2, s, n):
    if n == 0:
        return 0.01
    v = np.sqrt(s2 / n - np.multiply(s / n, s / n))
    if np.abs(v) < 0.01:
        v = 0.01
    return v


def stats(t):
    r = t[:, 0].reshape(-1, 1)
    a = t[:, 1:].reshape(-1, 3)
    n = r.shape[0]
    mean = np.array([np.sum(r) / (n + 1e-15), 0, 0, 0]).reshape(-1, 4)
    sr = std(np.sum(np.multiply(r, r)), np.sum(r), n)
    sa = std(np.sum(np.multiply(a, a)) / 3.0, np.sum(a) / 3.0, n)
    return mean, np.array([sr, sa, sa, sa]).reshape(-1, 4)


def scaled(self, t):
    if len(t.shape) == 3:
        out = (t - self.davg.reshape(1, 1, 4)) / self.dstd.reshape(1, 1, 4)
    elif len(t.shape) == 4:
        out = (t - self.davg.reshape(1, 1, 1, 4)) / self.dstd.reshape(1, 1, 1, 4)
    return out


def scaled_slope(self, t):
    if len(t.shape) == 4:
        out = t / self.dstd.reshape(1, 1, 4, 1)
    elif len(t.shape) == 5:
        out = t / self.dstd.reshape(1, 1, 1, 4, 1)
    return out


def all_pairs(self, structure):
    """one normalised matrix and derivative per centre/neighbour species pair, statistics of the centre species"""
    nbr = StructureNeighborsV1(structure=structure, rcut=self.rcut, scaling_matrix=self.scaling_matrix, reformat_mark=True, coords_are_cartesian=True)
    val, der = {}, {}
    for i, c in enumerate(self.center_atomic_numbers):
        for j, z in enumerate(self.nbr_atomic_numbers):
            p = DpseTildeRPairV1(structure_neighbors=nbr, center_atomic_number=c, nbr_atomic_number=z, rcut=self.rcut, rcut_smooth=self.rcut_smooth)
            norm = TildeRPairNormalizer(davg=self.davgs[i], dstd=self.dstds[i])
            key = "{0}_{1}".format(c, z)
            val[key] = norm.normalize(tildeRs_array=p.get_tildeR(max_num_nbrs=self.max_num_nbrs[j]))
            der[key] = norm.normalize_derivative(tildeR_derivatives_array=p.calc_derivative(max_num_nbrs=self.max_num_nbrs[j]))
    return val, der


def joined(self, structure):
    """neighbour species side by side, centre species stacked"""
    val, der = self._normalize(structure=structure)
    rows_v, rows_d = [], []
    for c in self.center_atomic_numbers:
        rows_v.append(np.concatenate([val["{0}_{1}".format(c, z)] for z in self.nbr_atomic_numbers], axis=1))
        rows_d.append(np.concatenate([der["{0}_{1}".format(c, z)] for z in self.nbr_atomic_numbers], axis=1))
    return np.concatenate(rows_v, axis=0), np.concatenate(rows_d, axis=0)


def per_center(system, which, rcut, smooth, zcs, zns, widths, scale):
    davgs, dstds = [], []
    for c in zcs:
        t = NormalizerPremise.concat_tildeRs4calc_stats(dp_labeled_system=system, structure_indices=which, rcut=rcut, rcut_smooth=smooth, center_atomic_number=c,
                                                        nbr_atomic_numbers=zns, max_num_nbrs=widths, scaling_matrix=scale)
        n = TildeRPairNormalizer(tildeRs_array=t)
        davgs.append(n.davg)
        dstds.append(n.dstd)
    return np.concatenate(davgs, axis=0), np.concatenate(dstds, axis=0)


def sample(system, which, rcut, smooth, zc, zns, widths, scale):
    out = []
    for s in [system.structures_lst[i] for i in which]:
        nbr = StructureNeighborsV1(structure=s, rcut=rcut, scaling_matrix=scale, reformat_mark=True, coords_are_cartesian=True)
        out.append(np.concatenate([DpseTildeRPairV1(structure_neighbors=nbr, center_atomic_number=zc, nbr_atomic_number=z, rcut=rcut, rcut_smooth=smooth).get_tildeR(max_num_nbrs=widths[j])
                                   for j, z in enumerate(zns)], axis=1))
    return np.concatenate(out, axis=1)


def save(self, path):
    h5 = h5py.File(path, "w")
    h5.create_dataset("rcut", data=self.rcut)
    h5.create_dataset("rcut_smooth", data=self.rcut_smooth)
    h5.create_dataset("center_atomic_numbers", data=self.center_atomic_numbers)
    h5.create_dataset("nbr_atomic_numbers", data=self.nbr_atomic_numbers)
    h5.create_dataset("max_num_nbrs", data=self.max_num_nbrs)
    h5.create_dataset("scaling_matrix", data=np.array(self.scaling_matrix))
    h5.create_dataset("davgs", data=self.davgs)
    h5.create_dataset("dstds", data=self.dstds)
    h5.close()


def load(cls, path):
    h5 = h5py.File(path, "r")
    rcut, smooth = h5["rcut"][()], h5["rcut_smooth"][()]
    zc, zn = h5["center_atomic_numbers"][()], h5["nbr_atomic_numbers"][()]
    width, scale = h5["max_num_nbrs"][()], h5["scaling_matrix"][()]
    davgs, dstds = h5["davgs"][()], h5["dstds"][()]
    h5.close()
    return cls(rcut=rcut, rcut_smooth=smooth, center_atomic_numbers=zc, nbr_atomic_numbers=zn, max_num_nbrs=width, scaling_matrix=scale, davgs=davgs, dstds=dstds)


def build(cls, system, which, rcut, smooth, zcs, zns, widths, scale):
    davgs, dstds = TildeRNormalizer.calc_stats(dp_labeled_system=system, structure_indices=which, rcut=rcut, rcut_smooth=smooth, center_atomic_numbers=zcs,
                                               nbr_atomic_numbers=zns, max_num_nbrs=widths, scaling_matrix=scale)
    return cls(rcut=rcut, rcut_smooth=smooth, center_atomic_numbers=zcs, nbr_atomic_numbers=zns, max_num_nbrs=widths, scaling_matrix=scale, davgs=davgs, dstds=dstds)


class Normalizer(object):
    def __init__(self, rcut, smooth, zcs, zns, widths, scale, davgs, dstds):
        self.rcut = rcut
        self.rcut_smooth = smooth
        self.center_atomic_numbers = zcs
        self.nbr_atomic_numbers = zns
        self.max_num_nbrs = widths
        self.scaling_matrix = scale
        self.davgs = davgs
        self.dstds = dstds
        assert davgs.shape[0] == len(zcs)
        assert davgs.shape[1] == 4
        assert dstds.shape[0] == len(zcs)
        assert dstds.shape[1] == 4
