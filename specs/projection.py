"""Reference: density of states and projected bands."""
import os
import re
import numpy as np
import pandas as pd
from io import StringIO
from matersdk.io.pwmat.utils.lineLocator import LineLocator

BOHR = 0.529177249


class Cleaned(object):
    def __init__(self, path):
        self.dos_totalspin_path = path
        self.bak_dosfile_path = cleaned(path)


def cleaned(path):
    """copy beside the file whose header row has no comment mark"""
    with open(path, "r") as f:
        lines = f.readlines()
    head = lines[0].split()
    try:
        head.remove("#")
    except:
        pass
    copy = os.path.join(os.path.dirname(path), "{0}.bak".format(os.path.basename(path)))
    with open(copy, "w") as f:
        f.writelines(["\t   ".join(head) + "\n"] + lines[1:])
    return copy


def table(self):
    return pd.read_csv(self.bak_dosfile_path, delimiter=r"\s+")


def total(self):
    t = table(self)
    try:
        return t.loc[:, ["Energy", "Total"]]
    except KeyError:
        return t.loc[:, ["Energy", "total"]]


def by_element(self):
    """energy, then per element (in file order) the sum over exactly its own orbital columns"""
    t = table(self)
    names = list(dict.fromkeys([c.split("-")[0] for c in t.columns.to_list()[2:]]))
    cols = [t.loc[:, "Energy"]]
    for n in names:
        cols.append(t.loc[:, [c.split("-")[0] == n for c in t.columns]].sum(axis=1))
    out = pd.concat(cols, axis=1)
    out.columns = ["Energy"] + names
    return out


def by_orbital(self):
    t = table(self)
    try:
        return t.drop(labels=["Total"], axis=1)
    except KeyError:
        return t.drop(labels=["total"], axis=1)


# ---- fat bands -----------------------------------------------------------------------------------------

def band_count(path):
    return len(LineLocator.locate_all_lines(file_path=path, content="BAND"))


def kpoint_count(path):
    m = LineLocator.locate_all_lines(file_path=path, content="BAND")
    return m[1] - m[0] - 2


def band_marks(path):
    return LineLocator.locate_all_lines(file_path=path, content="BAND")


def band_table(path):
    s = StringIO()
    with open(path, "r") as f:
        for line in f:
            if line != "" and "BAND" not in line:
                s.write(line)
    s.seek(0)
    t = pd.read_csv(s, delimiter=r"\s+")
    t.loc[:, "KPOINT"] = t.loc[:, "KPOINT"] / BOHR
    return t


def band_elements(self):
    names = list(self._preprocess().columns)
    names.remove("KPOINT")
    names.remove("ENERGY")
    names.remove("weight_tot")
    return list(dict.fromkeys([c.split("-")[0] for c in names]))


def bands(self):
    return np.array_split(self._preprocess(), self.num_bands)


def bands_by_element(self):
    t = self._preprocess()
    cols = [t.loc[:, ["KPOINT", "ENERGY", "weight_tot"]]]
    for n in self.elements_lst:
        own = t.filter(regex="^{0}-|KPOINT|ENERGY|weight_tot".format(n))
        cols.append(own.filter(regex="^{0}-".format(n)).sum(axis=1))
    out = pd.concat(cols, axis=1)
    out.columns = ["KPOINT", "ENERGY", "weight_tot"] + self.elements_lst
    return np.array_split(out, self.num_bands)


def bands_by_orbital(self, orbital):
    t = self._preprocess().filter(regex=re.compile("^{0}|KPOINT|ENERGY|weight_tot".format(orbital), re.IGNORECASE))
    return np.array_split(t, self.num_bands)
