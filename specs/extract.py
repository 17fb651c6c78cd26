"""Reference readers for atom.config files and MOVEMENT frames.

Written from the file format, not from the code: row of a section = first row whose
upper-cased text contains the section title; atom i of a section is on row title+1+i.
"""
import re
import numpy as np


# ------------------------------------------------------------ atom.config file

def rows(path):
    with open(path, "r") as f:
        return f.readlines()


def title(lines, word):
    k = 0
    while word not in lines[k].upper():
        k = k + 1
        if k >= len(lines):
            break
    return k


def title_first(lines, word):
    hits = [i for i in range(len(lines)) if word in lines[i].upper()]
    return hits[0]


def title_last(lines, word):
    hits = [i for i in range(len(lines)) if word in lines[i].upper()]
    return hits[-1]


def natoms_file(path):
    return int(rows(path)[0].split()[0])


def lattice9(lines):
    t = title_first(lines, "LATTICE")
    out = []
    for r in (1, 2, 3):
        cells = lines[t + r].split()
        out.append(float(cells[0]))
        out.append(float(cells[1]))
        out.append(float(cells[2]))
    return np.array(out)


def column_int(lines, word, n, col):
    t = title_first(lines, word)
    return np.array([int(lines[t + 1 + i].split()[col]) for i in range(n)])


def three_columns(lines, word, n):
    t = title_first(lines, word)
    out = []
    for i in range(n):
        cells = lines[t + 1 + i].split()
        out.extend([float(cells[1]), float(cells[2]), float(cells[3])])
    return np.array(out)


def file_lattice(path):
    return lattice9(rows(path))


def file_types(path):
    return column_int(rows(path), "POSITION", natoms_file(path), 0)


def file_coords(path):
    return three_columns(rows(path), "POSITION", natoms_file(path))


def file_magmoms(path):
    n = natoms_file(path)
    try:
        lines = rows(path)
        t = title_last(lines, "MAGNETIC")
        return [float(lines[t + 1 + i].split()[-1]) for i in range(n)]
    except Exception:
        return [0 for i in range(n)]


# ------------------------------------------------------------ MOVEMENT frame text

def natoms_text(text):
    return int(re.search(r"(\d+) atoms", text, re.IGNORECASE).group(1))


def text_lattice(text):
    return lattice9(text.split("\n"))


def text_types(text):
    return column_int(text.split("\n"), "POSITION", natoms_text(text), 0)


def text_coords(text):
    return three_columns(text.split("\n"), "POSITION", natoms_text(text))


def text_forces(text):
    try:
        return three_columns(text.split("\n"), "FORCE", natoms_text(text))
    except:
        return np.zeros((natoms_text(text) * 3,))


def text_eatoms(text):
    try:
        lines = text.split("\n")
        t = title_first(lines, "ATOMIC-ENERGY, ")
        return np.array([float(lines[t + 1 + i].split()[1]) for i in range(natoms_text(text))])
    except:
        raise AttributeError("no atomic energies")


def text_magmoms(text):
    try:
        lines = text.split("\n")
        t = title_first(lines, "MAGNETIC")
        return np.array([float(lines[t + 1 + i].split()[-1]) for i in range(natoms_text(text))])
    except:
        raise AttributeError("no magnetic moments")


def text_etot(text):
    items = text.split("\n")[0].split(",")
    k = title_first(items, "EK (EV) =")
    return np.array([float(items[k].split()[3])])


def text_virial(text):
    lines = text.split("\n")
    t = title_first(lines, "LATTICE")
    for r in range(1, 4):
        if len([w for w in lines[t + r].split() if "STRESS" in w.upper()]) == 0:
            raise AttributeError("no stress columns")
    out = []
    for r in range(1, 4):
        cells = lines[t + r].split()
        out += [float(cells[-3]), float(cells[-2]), float(cells[-1])]
    return np.array(out)


# ------------------------------------------------------------ locators

def locate_file(path, content):
    return [i + 1 for i, line in enumerate(rows(path)) if content in line.upper()]


def locate_list(items, content):
    return [i for i, s in enumerate(items) if content in s.upper()]
