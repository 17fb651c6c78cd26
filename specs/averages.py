"""Reference: bond lengths, bond angles and mean square displacements."""
import numpy as np
from matersdk.io.publicLayer.neigh import StructureNeighborsDescriptor
from matersdk.io.pwmat.output.movement import Movement
from matersdk.feature.deepmd.premise import DpFeaturePairPremiseDescriptor
from matersdk.io.pwmat.utils.parameters import specie2atomic_number


def mean_bond(nbr, zc, zn):
    """mean distance over (centre of species zc, neighbour of species zn); the centre itself (column 0) is no neighbour"""
    Z = nbr.key_nbr_atomic_numbers
    center = np.repeat(np.where(Z[:, 0] == zc, True, False)[:, np.newaxis], Z.shape[1], axis=1)
    hit = center & (Z == zn)
    hit[:, 0] = False
    d = np.where(hit, nbr.key_nbr_distances, 0)
    return np.sum(d) / np.count_nonzero(d)


class Bonds(object):
    def __init__(self, path, e1, e2, rcut):
        self.frames_lst = Movement(movement_path=path).get_all_frame_structures_info()[0]
        self.atomic_number_1 = specie2atomic_number[e1]
        self.atomic_number_2 = specie2atomic_number[e2]
        self.rcut = rcut


def frames_mean_bond(self, scaling):
    return [mean_bond(StructureNeighborsDescriptor.create("v1", s, self.rcut, scaling), self.atomic_number_1, self.atomic_number_2) for s in self.frames_lst]


def angle(u, v):
    c = np.dot(u, v) / (np.linalg.norm(u) * np.linalg.norm(v))
    return np.degrees(np.arccos(np.clip(c, -1.0, 1.0)))


def there(u):
    return not np.array_equal(u, np.zeros(3))


def triples(nbr, z1, z2, z3):
    """bonds (u, v) at every centre of species z1; each unordered pair once, and no atom with itself"""
    p = DpFeaturePairPremiseDescriptor.create("v1", structure_neighbors=nbr)
    A = p.extract_feature_pair(center_atomic_number=z1, nbr_atomic_number=z2)[2]
    B = p.extract_feature_pair(center_atomic_number=z1, nbr_atomic_number=z3)[2]
    out = []
    for c in range(A.shape[0]):
        for i in range(A.shape[1]):
            for j in range(i + 1 if z2 == z3 else 0, B.shape[1]):
                if there(A[c, i, :]) and there(B[c, j, :]):
                    out.append((A[c, i, :], B[c, j, :]))
    return out


def mean_angle(nbr, z1, z2, z3):
    p = DpFeaturePairPremiseDescriptor.create("v1", structure_neighbors=nbr)
    A = p.extract_feature_pair(center_atomic_number=z1, nbr_atomic_number=z2)[2]
    B = p.extract_feature_pair(center_atomic_number=z1, nbr_atomic_number=z3)[2]
    a = []
    if z2 == z3:
        for c in range(A.shape[0]):
            for i in range(A.shape[1]):
                for j in range(i + 1, B.shape[1]):
                    u, v = A[c, i, :], B[c, j, :]
                    if there(u) and there(v) and angle(u, v) >= 0:
                        a.append(angle(u, v))
    else:
        for c in range(A.shape[0]):
            for i in range(A.shape[1]):
                for j in range(B.shape[1]):
                    u, v = A[c, i, :], B[c, j, :]
                    if there(u) and there(v):
                        a.append(angle(u, v))
    a = np.array(a)
    return np.mean(a), 1 - 3 / 8 * np.sum((1 / 3 + np.cos(np.deg2rad(a))) ** 2)


def bonds_near_angle(nbr, z1, z2, z3, want, tol):
    p = DpFeaturePairPremiseDescriptor.create("v1", structure_neighbors=nbr)
    A = p.extract_feature_pair(center_atomic_number=z1, nbr_atomic_number=z2)[2]
    B = p.extract_feature_pair(center_atomic_number=z1, nbr_atomic_number=z3)[2]
    a, short, long_ = [], [], []
    if z2 == z3:
        for c in range(A.shape[0]):
            for i in range(A.shape[1]):
                for j in range(i + 1, B.shape[1]):
                    u, v = A[c, i, :], B[c, j, :]
                    if there(u) and there(v) and abs(angle(u, v) - want) < tol:
                        a.append(angle(u, v))
                        short.append(min([np.linalg.norm(u), np.linalg.norm(v)]))
                        long_.append(max([np.linalg.norm(u), np.linalg.norm(v)]))
    else:
        for c in range(A.shape[0]):
            for i in range(A.shape[1]):
                for j in range(B.shape[1]):
                    u, v = A[c, i, :], B[c, j, :]
                    if there(u) and there(v) and abs(angle(u, v) - want) < tol:
                        a.append(angle(u, v))
                        short.append(min([np.linalg.norm(u), np.linalg.norm(v)]))
                        long_.append(max([np.linalg.norm(u), np.linalg.norm(v)]))
    return np.concatenate((np.array(a).reshape(-1, 1), np.array(short).reshape(-1, 1), np.array(long_).reshape(-1, 1)), axis=1)


def pair_lengths(frames, i, j):
    return [np.linalg.norm(s.cart_coords[j] - s.cart_coords[i]) for s in frames]


def square_displacement(u):
    return np.sum(np.power(u, 2)) / u.shape[0]


def msd(frames):
    """one value per pair of consecutive frames, in order"""
    return [square_displacement(frames[k].cart_coords - frames[k - 1].cart_coords) for k in range(1, len(frames))]


def inner(s):
    return s.cart_coords - s.get_centroid().reshape(1, 3)


def msd_inner(frames):
    return [square_displacement(inner(frames[k]) - inner(frames[k - 1])) for k in range(1, len(frames))]


def intensity(q, m):
    return np.exp(-q ** 2 * m / 3)


class Intensity(object):
    def __init__(self, trajectory, q):
        self.q = q
        self.msd_array = np.array(msd(trajectory.get_all_frame_structures()))
