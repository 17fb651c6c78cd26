"""Reference: k-path and k-mesh sampling."""
import os
import numpy as np


def points(self):
    """special points by name, Gamma called G; the z = 0 plane only for two-dimensional materials"""
    pts = self.kpath["kpoints"]
    try:
        pts.update({"G": pts.pop("\\Gamma")})
    except:
        pass
    if self.dimension == 2:
        flat = {}
        for name, coord in pts.items():
            if coord[-1] == 0:
                flat[name] = coord
        return flat
    if self.dimension == 3:
        return pts
    raise Exception("The dimension of material must be 2 or 3!")


def paths(self):
    """paths with Gamma called G; for two-dimensional materials without the points left out, and without paths left with one point"""
    named = []
    for p in self.kpath["path"]:
        if "\\Gamma" in p:
            named.append(["G" if x == "\\Gamma" else x for x in p])
        else:
            named.append(p)
    if self.dimension == 2:
        kept = [[x for x in p if x in self.kpoints.keys()] for p in named]
        return [p for p in kept if len(p) > 1]
    if self.dimension == 3:
        return named
    raise Exception("The dimension of material must be 2 or 3!")


LINE = "    {0:>12.6f}\t{1:>12.6f}\t{2:>12.6f}\t{3}\n"


def write_points(self, path):
    if os.path.exists(path):
        os.remove(path)
    with open(path, "a") as f:
        f.write("High symmetry kpoints generated by MaterSDK, structure:{0}, fractional coordinates in reciprocal lattice\n".format(self.structure.formula))
        for name in self.kpoints.keys():
            c = self.kpoints[name]
            f.write(LINE.format(c[0], c[1], c[2], name))


def write_path(self, path, density):
    """per segment: number of points for its reciprocal length, start, destination"""
    if os.path.exists(path):
        os.remove(path)
    B = self.structure.lattice.reciprocal_lattice_crystallographic.matrix
    with open(path, "a") as f:
        f.write("K-path generated by MaterSDK, structure:{0}, density:{1}, fractional coordinates in reciprocal lattice\n".format(self.structure.formula, density))
        for p in self.kpaths:
            for i in range(1, len(p)):
                a, b = self.kpoints[p[i - 1]], self.kpoints[p[i]]
                length = np.linalg.norm(np.dot(np.array(b) - np.array(a), B))
                f.write("{0}\n".format(int(np.ceil(length / density))))
                f.write(LINE.format(a[0], a[1], a[2], p[i - 1]))
                f.write(LINE.format(b[0], b[1], b[2], p[i]))


def mesh(self, density):
    """reciprocal length over spacing, rounded, at least one, one along vacuum"""
    if density == 0:
        return np.array([1, 1, 1])
    B = self.structure.lattice.reciprocal_lattice.matrix
    k = np.round(np.sqrt(np.sum(np.power(B, 2), axis=1)) / (density * 2 * np.pi))
    for i in range(3):
        if self.structure.judge_vacuum_exist()[i]:
            k[i] = 1
    for i in range(3):
        if k[i] == 0:
            k[i] = 1
    return k


def irreducible(self):
    return self.spacegroup_analyser.get_ir_reciprocal_mesh(mesh=self.kmesh, is_shift=self.is_shift)


def irreducible_count(self):
    return len(irreducible(self))
