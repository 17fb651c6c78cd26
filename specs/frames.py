"""Reference trajectory splitter and frame records."""
import numpy as np
from matersdk.io.pwmat.utils.acextractor import ACstrExtractor
from matersdk.io.pwmat.utils.mvextractor import MVExtractor

RULE = "--------------------------------------"


def ends(path):
    """1-based row numbers of the frame separators"""
    with open(path, "r") as f:
        lines = f.readlines()
    return [i + 1 for i in range(len(lines)) if RULE in lines[i].upper()]


def sizes(path):
    e = ends(path)
    return [e[0]] + [e[k + 1] - e[k] for k in range(len(e) - 1)]


def nframes(path):
    return len(ends(path))


def slices(chunk):
    return np.cumsum([0] + chunk)


def frame_text(path, cuts, k):
    with open(path, "r") as f:
        lines = f.readlines()
    out = ""
    for i in range(len(lines)):
        if i >= cuts[k]:
            if i < cuts[k + 1]:
                out += lines[i]
            else:
                break
        elif i >= cuts[k + 1]:
            break
    return out


def frame_record(x, virial, eatoms, magmoms):
    """x: reader of one frame"""
    rec = [x.get_basis_vectors(), x.get_types(), x.get_coords(), x.get_etot(), x.get_fatoms()]
    if virial:
        rec = rec + [x.get_virial()]
    if eatoms:
        rec = rec + [x.get_eatoms()]
    if magmoms:
        rec = rec + [x.get_magmoms()]
    return rec


def one_frame(self, k, virial, eatoms, magmoms):
    return frame_record(ACstrExtractor(self.get_frame_str(fidx=k)), virial, eatoms, magmoms)


def all_frames(path, chunk, virial, eatoms, magmoms):
    texts = []
    with open(path, "r") as f:
        for c in chunk:
            s = ""
            for j in range(c):
                s += f.readline()
            texts.append(ACstrExtractor(s))
    rec = [np.array([x.get_basis_vectors() for x in texts]),
           np.array([x.get_types() for x in texts]),
           np.array([x.get_coords() for x in texts]),
           np.array([x.get_etot() for x in texts]),
           np.array([x.get_fatoms() for x in texts])]
    if virial:
        rec.append(np.array([x.get_virial() for x in texts]))
    if eatoms:
        rec.append(np.array([x.get_eatoms() for x in texts]))
    if magmoms:
        rec.append(np.array([x.get_magmoms() for x in texts]))
    return rec


def labels(virial, eatoms, magmoms):
    return ["box", "types", "coords", "etot", "fatoms"] + (["virial"] if virial else []) + (["eatoms"] if eatoms else []) + (["magmoms"] if magmoms else [])


def marks(self):
    x = ACstrExtractor(self.get_frame_str(fidx=0))
    v = True
    try:
        x.get_virial()
    except AttributeError:
        v = False
    e = True
    try:
        x.get_eatoms()
    except AttributeError:
        e = False
    m = True
    try:
        x.get_magmoms()
    except AttributeError:
        m = False
    return [v, e, m]


class Frames(object):
    def __init__(self, path):
        self.mv_path = path
        self.chunksizes = sizes(path)
        self.chunkslices = slices(self.chunksizes)
        self.num_frames = nframes(path)
        x = ACstrExtractor(frame_text(path, self.chunkslices, 0))
        self.virial_mark = has_virial(x)
        self.eatoms_mark = has_eatoms(x)
        self.magmoms_mark = has_magmoms(x)


def has_virial(x):
    try:
        x.get_virial()
        return True
    except AttributeError:
        return False


def has_eatoms(x):
    try:
        x.get_eatoms()
        return True
    except AttributeError:
        return False


def has_magmoms(x):
    try:
        x.get_magmoms()
        return True
    except AttributeError:
        return False


def same(x):
    return x
