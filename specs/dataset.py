"""Reference dataset assembly and export."""
import os
import numpy as np
from collections import Counter
from matersdk.io.pwmat.utils.mvextractor import MVExtractor
from matersdk.io.pwmat.utils.parameters import atomic_number2specie, specie2atomic_number
from matersdk.data.infoset import InfoSet
from matersdk.data.infosets import InfoSets


def composition(first_types, zs):
    """element -> count, elements in the order of the dataset's type map"""
    if zs is False:
        kinds = np.unique(first_types, return_counts=True)
        return {atomic_number2specie[z]: c for z, c in zip(kinds[0], kinds[1])}
    comp = {}
    for z in zs:
        comp[atomic_number2specie[z]] = 0
    for z in zs:
        for t in first_types:
            if t == z:
                comp[atomic_number2specie[z]] += 1
    return comp


def load(path, fmt, zs):
    if fmt.upper() != "PWMAT/MOVEMENT":
        raise NameError("unknown format")
    x = MVExtractor(path)
    has_v, has_e, has_m = x._find_extra_properties()
    rec = x.get_frames_info()
    pos = 5
    opt = {}
    if has_v:
        opt["virial"] = rec[pos]
        pos = pos + 1
    if has_e:
        opt["eatom"] = rec[pos]
        pos = pos + 1
    if has_m:
        opt["magmom"] = rec[pos]
    frames = rec[0].shape[0]
    comp = composition(rec[1][0], zs)
    order = zs
    if zs is False:
        order = [specie2atomic_number[s] for s in comp.keys()]
    name = ""
    for s, c in comp.items():
        name = name + str(s) + str(c)
    idx = np.array([np.array([order.index(z) for z in rec[1][f]]) for f in range(frames)])
    return InfoSet(box=rec[0], types=idx, coord=rec[2], etot=rec[3], fatom=rec[4],
                   formula_dict=comp, formula=name, num_frames=frames, **opt)


class Bag(object):
    pass


def keep(box, types, coord, etot, fatom, formula_dict, formula, num_frames, virial, eatom, magmom):
    b = Bag()
    b.box, b.types, b.coord, b.etot, b.fatom = box, types, coord, etot, fatom
    b.formula_dict, b.formula, b.num_frames = formula_dict, formula, num_frames
    b.virial, b.eatom, b.magmom = virial, eatom, magmom
    b.virial_mark = virial is not False
    b.eatom_mark = eatom is not False
    b.magmom_mark = magmom is not False
    return b


def save_part(folder, lo, hi, box, types, coord, etot, fatom, virial, eatom, magmom, has_v, has_e, has_m):
    os.mkdir(folder)
    np.save(folder + "/box.npy", box[lo:hi])
    np.save(folder + "/types.npy", types[lo:hi])
    np.save(folder + "/coord.npy", coord[lo:hi])
    np.save(folder + "/etot.npy", etot[lo:hi])
    np.save(folder + "/fatom.npy", fatom[lo:hi])
    if has_v:
        np.save(folder + "/virial.npy", virial[lo:hi])
    if has_e:
        np.save(folder + "/eatom.npy", eatom[lo:hi])
    if has_m:
        np.save(folder + "/magmoms", magmom[lo:hi])


def export(self, where, part):
    """frames [k*part, (k+1)*part) in part k, the remainder in the last part"""
    root = os.path.join(where, self.formula)
    os.mkdir(root)
    with open(root + "/type_map.raw", "w") as f:
        for e in self.formula_dict.keys():
            f.write(e + "\n")
    cut(self, self.num_frames, root, part)


def cut(self, n, root, part):
    if part is False:
        part = n
        count = 1
    else:
        count = int(n / part) + 1
    for k in range(count):
        lo = k * part
        hi = n if k == count - 1 else lo + part
        if hi == lo:
            break
        save_part(root + "/part.{0:0>3}".format(k), lo, hi, self.box, self.types, self.coord, self.etot, self.fatom,
                  self.virial, self.eatom, self.magmom, self.virial_mark, self.eatom_mark, self.magmom_mark)


def export_sized(self, where, ranges):
    """the same requirement with the consecutive ranges written out one by one"""
    root = os.path.join(where, self.formula)
    os.mkdir(root)
    with open(root + "/type_map.raw", "w") as f:
        for e in self.formula_dict.keys():
            f.write(e + "\n")
    for k, r in enumerate(ranges):
        save_part(root + "/part.{0:0>3}".format(k), r[0], r[1], self.box, self.types, self.coord, self.etot, self.fatom,
                  self.virial, self.eatom, self.magmom, self.virial_mark, self.eatom_mark, self.magmom_mark)


def total_frames(self):
    return sum(s.num_frames for s in self.infoset_lst)


def export_all(self, where, part):
    if part is False:
        part = sum(s.num_frames for s in self.infoset_lst)
    for s in self.infoset_lst:
        s.to_dir(dir_path=where, part_size=part)


def collect(cls, top, name, fmt):
    """one dataset per composition, sources concatenated in discovery order, optional data only if every source has it"""
    paths = [os.path.join(r, f) for r, d, fs in os.walk(top) for f in fs if f.upper() == name.upper()]
    zs = []
    for s in [InfoSet.from_file(file_path=p, file_format=fmt) for p in paths]:
        for e in s.formula_dict.keys():
            z = specie2atomic_number[e]
            if z not in zs:
                zs.append(z)
    sets = [InfoSet.from_file(file_path=p, file_format=fmt, infosets_atomic_numbers=zs) for p in paths]
    out = []
    for formula, count in Counter([s.formula for s in sets]).items():
        if count == 1:
            out += [s for s in sets if s.formula == formula]
        else:
            same = []
            for s in sets:
                if s.formula == formula:
                    same.append(s)
                    comp = s.formula_dict
            kw = {"box": np.concatenate([s.box for s in same], axis=0),
                  "types": np.concatenate([s.types for s in same], axis=0),
                  "coord": np.concatenate([s.coord for s in same], axis=0),
                  "etot": np.concatenate([s.etot for s in same], axis=0),
                  "fatom": np.concatenate([s.fatom for s in same], axis=0),
                  "formula": formula,
                  "formula_dict": comp,
                  "num_frames": sum([s.num_frames for s in same])}
            if False not in [s.virial_mark for s in same]:
                kw["virial"] = np.concatenate([s.virial for s in same], axis=0)
            if False not in [s.eatom_mark for s in same]:
                kw["eatom"] = np.concatenate([s.eatom for s in same], axis=0)
            if False not in [s.magmom_mark for s in same]:
                kw["magmom"] = np.concatenate([s.magmom for s in same], axis=0)
            out.append(InfoSet(**kw))
    return cls(out)
