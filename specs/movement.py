"""Reference: PWmat MOVEMENT trajectory."""
import numpy as np
from matersdk.io.pwmat.utils.lineLocator import LineLocator, ListLocator
from matersdk.io.publicLayer.structure import DStructure

END = "--------------------------------------"


def sizes(path):
    """number of lines of each frame; a frame ends with the dashed line"""
    ends = LineLocator.locate_all_lines(file_path=path, content=END)
    return [ends[0]] + [ends[i] - ends[i - 1] for i in range(1, len(ends))]


def bounds(self):
    return np.cumsum([0] + list(self.chunksizes_lst))


class Built(object):
    def __init__(self, path):
        self.movement_path = path
        self.chunksizes_lst = sizes(path)
        self.chunkslices_lst = np.cumsum([0] + list(sizes(path)))


def frame_text(self, k):
    """the lines of frame k, unchanged and in order"""
    first, stop = self.chunkslices_lst[k], self.chunkslices_lst[k + 1]
    text = ""
    with open(self.movement_path, "r") as f:
        for i, line in enumerate(f):
            if first <= i < stop:
                text += line
            elif i >= stop:
                break
    return text


def chunks(self):
    out = []
    with open(self.movement_path, "r") as f:
        for n in self.chunksizes_lst:
            t = ""
            for _ in range(n):
                t += f.readline()
            out.append(t)
    return out


def structures(self):
    return [DStructure.from_str(str_content=t, str_format="pwmat") for t in chunks(self)]


def energies_of(text):
    """total, potential, kinetic: the three words after the second word holding '='"""
    w = text.split("\n")[0].split()
    e = ListLocator.locate_all_lines(strs_lst=w, content="=")[1]
    k = w[e + 3].strip()
    if k[-1] == ",":
        kin = float(k[:-1])
    else:
        kin = float(k)
    return float(w[e + 1].strip()), float(w[e + 2].strip()), kin


def virial_of(rows):
    """last three columns of the three lattice rows"""
    a = ListLocator.locate_all_lines(strs_lst=rows, content="LATTICE VECTOR")[0]
    return np.vstack([np.array([float(x.strip()) for x in rows[a + k].split()[-3:]]) for k in (1, 2, 3)])


def has_virial(rows):
    a = ListLocator.locate_all_lines(strs_lst=rows, content="LATTICE VECTOR")[0]
    return len(rows[a + 1].split()) != 3


def everything(self):
    s, et, ep, ek, v = [], [], [], [], []
    for t in chunks(self):
        s.append(DStructure.from_str(str_content=t, str_format="pwmat"))
        a, b, c = energies_of(t)
        et.append(a)
        ep.append(b)
        ek.append(c)
        rows = t.split("\n")
        if has_virial(rows):
            v.append(virial_of(rows))
    return s, np.array(et), np.array(ep), np.array(ek), np.array(v)


def one_structure(self, k):
    return DStructure.from_str(str_content=self._get_frame_str(idx_frame=k), str_format="pwmat", coords_are_cartesian=False)


def one_energy(self, k):
    return energies_of(self._get_frame_str(idx_frame=k))


def one_virial(self, k):
    rows = self._get_frame_str(idx_frame=k).split("\n")
    if has_virial(rows):
        return virial_of(rows)
    return np.zeros((3, 3))
