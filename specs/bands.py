"""Reference: band structure quantities of REPORT, OUT.FERMI and IN.KPT."""
import linecache
import math
import os
import numpy as np
from matersdk.io.publicLayer.structure import DStructure


def hits(path, what):
    with open(path, "r") as f:
        lines = f.readlines()
    return [i + 1 for i in range(len(lines)) if what in lines[i]]


def last_word_int(path, what):
    return int(linecache.getline(path, hits(path, what)[0]).split()[-1])


def num_bands(path):
    return last_word_int(path, "NUM_BAND")


def num_kpts(path):
    return last_word_int(path, "NUM_KPT")


def in_atom(path):
    return linecache.getline(path, hits(path, "IN.ATOM")[0]).split()[-1]


def fermi(path):
    return np.round(float(linecache.getline(path, 1).split()[-2]), 3)


def eigen(self):
    """per spin, one row per k-point, all bands of that k-point in file order"""
    nk = self.get_num_kpts()
    nb = self.get_num_bands()
    starts = hits(self.report_path, "eigen energies, in eV")
    with open(self.report_path, "r") as f:
        lines = f.readlines()
    rows = int(np.ceil(nb / 5))
    up, down = [], []
    for i, s in enumerate(starts):
        e = np.array([float(w) for line in lines[s:s + rows] for w in line.split()])
        if i < nk:
            up.append(e)
        else:
            down.append(e)
    return {"up": np.array(up), "down": np.array(down)}


def eigen_checked(self):
    """a second spin channel has as many k-points and bands as the first"""
    e = eigen(self)
    if e["down"].size != 0:
        assert e["up"].shape == e["down"].shape
    return e


def metal(self, fermi_path, tol):
    """a band with states on both sides of the Fermi level"""
    ef = fermi_path
    e = self.get_eigen_energies()
    for spin in list(e.keys()):
        bands = e[spin].T
        for b in range(bands.shape[0]):
            if np.any(bands[b, :] - ef < -tol) and np.any(bands[b, :] - ef > tol):
                return True
    return False


def conduction(self, fermi_path, ef):
    """lowest state at or above the Fermi level and the others sharing its k-point and energy; k-points and bands count from 1"""
    if self._is_metal(out_fermi_path=fermi_path):
        return None
    e = self.get_eigen_energies()
    best = float("inf")
    kpt = 0
    band = 0
    spin = None
    for s in list(e.keys()):
        for k, b in zip(*np.where(e[s] >= ef)):
            if e[s][k][b] < best:
                best = round(float(e[s][k][b]), 4)
                kpt = k + 1
                band = b + 1
                spin = s
    out = {"energies": [best], "kpts": [kpt], "bands": [band], "spins": [spin]}
    for s in list(e.keys()):
        for b in range(e["up"].shape[1]):
            if s == spin and b + 1 == band:
                continue
            try:
                if math.fabs(e[s][kpt - 1][b] - best) < 0.001:
                    out["energies"].append(best)
                    out["kpts"].append(kpt)
                    out["bands"].append(b + 1)
                    out["spins"].append(s)
            except:
                pass
    return out


def valence(self, fermi_path, ef):
    if self._is_metal(out_fermi_path=fermi_path):
        return None
    e = self.get_eigen_energies()
    best = -float("inf")
    kpt = 0
    band = 0
    spin = None
    for s in list(e.keys()):
        for k, b in zip(*np.where(e[s] <= ef)):
            if e[s][k][b] > best:
                best = round(float(e[s][k][b]), 4)
                kpt = k + 1
                band = b + 1
                spin = s
    out = {"energies": [best], "kpts": [kpt], "bands": [band], "spins": [spin]}
    for s in list(e.keys()):
        for b in range(e["up"].shape[1]):
            if s == spin and b + 1 == band:
                continue
            try:
                if math.fabs(e[s][kpt - 1][b] - best) < 0.001:
                    out["energies"].append(best)
                    out["kpts"].append(kpt)
                    out["bands"].append(b + 1)
                    out["spins"].append(s)
            except:
                pass
    return out


def gap(self, fermi_path):
    return self.get_cbm(out_fermi_path=fermi_path)["energies"][0] - self.get_vbm(out_fermi_path=fermi_path)["energies"][0]


def gap_kind(self, fermi_path):
    v = self.get_vbm(out_fermi_path=fermi_path)
    c = self.get_cbm(out_fermi_path=fermi_path)
    shared = np.intersect1d(v["kpts"], c["kpts"], return_indices=True)[0]
    if shared.size == 0:
        return 0
    return 1


# ---- IN.KPT --------------------------------------------------------------------------------------------

BOHR = 0.529177249


def kpt_flag(path):
    return int(linecache.getline(path, 2).split()[0])


def kpt_a0(path):
    return int(linecache.getline(path, 2).split()[-1])


def kpt_count(path):
    return int(linecache.getline(path, 1).split()[0])


def body(path):
    with open(path, "r") as f:
        lines = f.readlines()
    return lines[2:]


def kpt_frac(path):
    return np.array([[float(w) for w in line.split()[:3]] for line in body(path)])


def kpt_weights(path):
    return [float(line.split()[3]) for line in body(path)]


def cartesian(self, cell):
    s = DStructure.from_file(file_path=cell, file_format="pwmat")
    return np.dot(self.get_kpt_coords_frac(), np.array(s.lattice.reciprocal_lattice.matrix))


def cartesian_bohr(self, cell):
    return cartesian(self, cell) * BOHR


def special(path):
    names, coords = [], []
    for line in body(path):
        w = line.split()
        if len(w) == 5:
            names.append(w[-1])
            coords.append([float(w[0]), float(w[1]), float(w[2])])
    return {"hsp": names, "coords_frac": coords}


def special_rows(path):
    out = {}
    for i, line in enumerate(body(path)):
        if len(line.split()) == 5:
            out[i] = line.split()[-1]
    return out


def steps(self, cell):
    k = self.get_kpt_coords_A(atom_config_path=cell)
    d = [0] + list(np.linalg.norm(np.diff(k, axis=0), axis=1))
    assert k.shape[0] == len(d)
    return d


def pieces(self, cell):
    """path length cut where two special points are adjacent rows"""
    rows = self._get_idx2hsp()
    d = self._get_distance_from_nbr(atom_config_path=cell)
    total = list(np.cumsum(np.array(d)))
    keys = list(rows.keys())
    cuts = [0]
    for i in range(1, len(keys)):
        if keys[i] - keys[i - 1] == 1:
            cuts.append(keys[i])
    cuts.append(len(d))
    return [total[cuts[i - 1]:cuts[i]] for i in range(1, len(cuts))]


def path_length(self, cell):
    """distance along the path, continuous across the jumps between pieces"""
    out = []
    for i, p in enumerate(self._split_distances_from_gamma_lst(atom_config_path=cell)):
        if i != 0:
            end = out[-1]
            start = p[0]
            new = [x + end - start for x in p]
        else:
            new = p
        for x in new:
            out.append(x)
    return out


def path_length_bohr(self, cell):
    return [x * BOHR for x in self.get_distance_from_gamma_A(atom_config_path=cell)]
