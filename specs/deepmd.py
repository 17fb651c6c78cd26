"""Smooth-edition descriptors of the C++ core."""
import numpy as np
from cxx.deepmd import EnvMatrix, Se4pw, PairTildeR, TildeR, NeighborList, SwitchFunc, smooth_func__3, recip__1


# ---- the switching function and the four components of one neighbour
def switch(r, rcut, rs):
    s = SwitchFunc().ctor__2(rcut, rs)
    return s.get_result__1(r), s.get_deriv2r__1(r)


def r_switch(r, rcut, rs):
    u = (r - rs) / (rcut - rs)
    if r < rs:
        return 1, 0
    if r < rcut:
        return 1 - 10 * u ** 3 + 15 * u ** 4 - 6 * u ** 5, (-30 * u ** 2 + 60 * u ** 3 - 30 * u ** 4) / (rcut - rs)
    return 0, 0


def smooth(r, rcut, rs):
    return smooth_func__3(r, rcut, rs), recip__1(r)


def r_smooth(r, rcut, rs):
    w = r_switch(r, rcut, rs)[0]
    inv = 0 if r == 0 else 1 / r
    return w * inv, inv


def r_entry(d, rcut, rs):
    r = np.sqrt(d[0] ** 2 + d[1] ** 2 + d[2] ** 2)
    inv = recip__1(r)
    s = SwitchFunc().ctor__2(rcut, rs)
    w, dw = s.get_result__1(r), s.get_deriv2r__1(r)
    v = smooth_func__3(r, rcut, rs)
    val = [v, v * inv * d[0], v * inv * d[1], v * inv * d[2]]
    # derivative with respect to the neighbour's coordinates
    der = [[(dw * inv - w * inv ** 2) * inv * d[b] for b in range(3)]]
    for a in range(3):
        der.append([(dw * inv ** 2 - 2 * w * inv ** 3) * inv * d[b] * d[a] + (w * inv ** 2 if a == b else 0) for b in range(3)])
    return val, der


# ---- fixed-size tables, one row per centre and one block per species
def env(n, num, first, rel, types, nt, most, rcut, rs):
    tot = 0
    for t in range(nt):
        tot += most[t]
    val = __carray__(n * tot * 4)
    der = __carray__(n * tot * 4 * 3)
    EnvMatrix.find_value_deriv__12(val, der, n, None, num, first, rel, types, nt, most, rcut, rs)
    return val, der


def r_env(n, num, first, rel, types, nt, most, rcut, rs):
    tot = sum(most[t] for t in range(nt))
    val = [0 for _ in range(n * tot * 4)]
    der = [0 for _ in range(n * tot * 4 * 3)]
    for i in range(n):
        seen = [0 for _ in range(nt)]
        for j in range(num[i]):
            t = types[first[i * tot + j]]
            k = i * tot + sum(most[s] for s in range(t)) + seen[t]
            v, g = r_entry([rel[(i * tot + j) * 3], rel[(i * tot + j) * 3 + 1], rel[(i * tot + j) * 3 + 2]], rcut, rs)
            for a in range(4):
                val[k * 4 + a] = v[a]
                for b in range(3):
                    der[(k * 4 + a) * 3 + b] = g[a][b]
            seen[t] += 1
    return val, der


def se(n, ilist, num, first, x, types, nt, most, rcut, rs):
    tot = 0
    for t in range(nt):
        tot += most[t]
    val = __carray__(n * tot * 4)
    der = __carray__(n * tot * 4 * 3)
    rel = __carray__(n * tot * 3)
    Se4pw.generate__13(val, der, rel, n, ilist, num, first, x, types, nt, most, rcut, rs)
    return val, der, rel


def r_se(n, ilist, num, first, x, types, nt, most, rcut, rs):
    tot = sum(most[t] for t in range(nt))
    val = [0 for _ in range(n * tot * 4)]
    der = [0 for _ in range(n * tot * 4 * 3)]
    rel = [0 for _ in range(n * tot * 3)]
    for i in range(n):
        seen = [0 for _ in range(nt)]
        c = ilist[i]
        for j in range(num[i]):
            m = first[i * tot + j]
            t = types[m]
            k = i * tot + sum(most[s] for s in range(t)) + seen[t]
            d = [x[m * 3 + b] - x[c * 3 + b] for b in range(3)]
            v, g = r_entry(d, rcut, rs)
            for a in range(4):
                val[k * 4 + a] = v[a]
                for b in range(3):
                    der[(k * 4 + a) * 3 + b] = -g[a][b]     # with respect to the centre's coordinates
            for b in range(3):
                rel[k * 3 + b] = d[b]
            seen[t] += 1
    return val, der, rel


def home(n, ilist, num, first, types, nt, most):
    tot = 0
    for t in range(nt):
        tot += most[t]
    out = __carray__(n * tot)
    Se4pw.get_prim_indices_from_matersdk__8(out, n, ilist, num, first, types, nt, most)
    return out


def r_home(n, ilist, num, first, types, nt, most):
    tot = sum(most[t] for t in range(nt))
    out = [-1 for _ in range(n * tot)]
    for i in range(n):
        seen = [0 for _ in range(nt)]
        for j in range(num[i]):
            m = first[i * tot + j]
            t = types[m]
            out[i * tot + sum(most[s] for s in range(t)) + seen[t]] = __cmod__(m, n)
            seen[t] += 1
    return out


# ---- one pair of species
def pair(n, ilist, num, first, x, types, zc, zn, most, rcut, rs):
    return PairTildeR.generate__11(n, ilist, num, first, x, types, zc, zn, most, rcut, rs)


def r_pair(n, ilist, num, first, x, types, zc, zn, most, rcut, rs):
    out = np.zeros((sum(1 for i in range(n) if types[ilist[i]] == zc), most, 4))
    c = 0
    for i in range(n):
        if types[ilist[i]] == zc:
            m = 0
            for j in range(num[i]):
                if types[first[i, j]] == zn:
                    v, g = r_entry([x[first[i, j]][b] - x[ilist[i]][b] for b in range(3)], rcut, rs)
                    for a in range(4):
                        out[c, m, a] = v[a]
                    m += 1
            c += 1
    return out


def pairder(n, ilist, num, first, x, types, zc, zn, most, rcut, rs):
    return PairTildeR.deriv__11(n, ilist, num, first, x, types, zc, zn, most, rcut, rs)


def r_pairder(n, ilist, num, first, x, types, zc, zn, most, rcut, rs):
    out = np.zeros((sum(1 for i in range(n) if types[ilist[i]] == zc), most, 4, 3))
    c = 0
    for i in range(n):
        if types[ilist[i]] == zc:
            m = 0
            for j in range(num[i]):
                if types[first[i, j]] == zn:
                    v, g = r_entry([x[first[i, j]][b] - x[ilist[i]][b] for b in range(3)], rcut, rs)
                    for a in range(4):
                        for b in range(3):
                            out[c, m, a, b] = -g[a][b]
                    m += 1
            c += 1
    return out


# ---- all pairs of species, side by side
def whole(n, ilist, num, first, x, types, kc, zc, kn, zn, most, rcut, rs):
    return TildeR.generate__13(n, ilist, num, first, x, types, kc, zc, kn, zn, most, rcut, rs)


def whole_into(n, ilist, num, first, x, types, kc, zc, kn, zn, most, rcut, rs, a, b):
    out = __carray__(a, b, 4)
    TildeR.generate__14(out, n, ilist, num, first, x, types, kc, zc, kn, zn, most, rcut, rs)
    return out


def r_place(out, n, ilist, num, first, x, types, kc, zc, kn, zn, most, rcut, rs):
    for p in range(kc):
        top = sum(sum(1 for i in range(n) if types[ilist[i]] == zc[o]) for o in range(p))
        rows = sum(1 for i in range(n) if types[ilist[i]] == zc[p])
        for q in range(kn):
            left = sum(most[o] for o in range(q))
            t = PairTildeR.generate__11(n, ilist, num, first, x, types, zc[p], zn[q], most[q], rcut, rs)
            for c in range(rows):
                for m in range(most[q]):
                    for a in range(4):
                        out[top + c, left + m, a] = t[c, m, a]
    return out


def r_whole(n, ilist, num, first, x, types, kc, zc, kn, zn, most, rcut, rs):
    a = sum(sum(1 for i in range(n) if types[ilist[i]] == zc[o]) for o in range(kc))
    b = sum(most[o] for o in range(kn))
    return r_place(__carray__(a, b, 4), n, ilist, num, first, x, types, kc, zc, kn, zn, most, rcut, rs)


def r_whole_into(n, ilist, num, first, x, types, kc, zc, kn, zn, most, rcut, rs, a, b):
    return r_place(__carray__(a, b, 4), n, ilist, num, first, x, types, kc, zc, kn, zn, most, rcut, rs)


def wholeder(n, ilist, num, first, x, types, kc, zc, kn, zn, most, rcut, rs):
    return TildeR.deriv__13(n, ilist, num, first, x, types, kc, zc, kn, zn, most, rcut, rs)


def wholeder_into(n, ilist, num, first, x, types, kc, zc, kn, zn, most, rcut, rs, a, b):
    out = __carray__(a, b, 4, 3)
    TildeR.deriv__14(out, n, ilist, num, first, x, types, kc, zc, kn, zn, most, rcut, rs)
    return out


def r_placeder(out, n, ilist, num, first, x, types, kc, zc, kn, zn, most, rcut, rs):
    for p in range(kc):
        top = sum(sum(1 for i in range(n) if types[ilist[i]] == zc[o]) for o in range(p))
        rows = sum(1 for i in range(n) if types[ilist[i]] == zc[p])
        for q in range(kn):
            left = sum(most[o] for o in range(q))
            t = PairTildeR.deriv__11(n, ilist, num, first, x, types, zc[p], zn[q], most[q], rcut, rs)
            for c in range(rows):
                for m in range(most[q]):
                    for a in range(4):
                        for b in range(3):
                            out[top + c, left + m, a, b] = t[c, m, a, b]
    return out


def r_wholeder(n, ilist, num, first, x, types, kc, zc, kn, zn, most, rcut, rs):
    a = sum(sum(1 for i in range(n) if types[ilist[i]] == zc[o]) for o in range(kc))
    b = sum(most[o] for o in range(kn))
    return r_placeder(np.zeros((a, b, 4, 3)), n, ilist, num, first, x, types, kc, zc, kn, zn, most, rcut, rs)


def r_wholeder_into(n, ilist, num, first, x, types, kc, zc, kn, zn, most, rcut, rs, a, b):
    return r_placeder(__carray__(a, b, 4, 3), n, ilist, num, first, x, types, kc, zc, kn, zn, most, rcut, rs)


# ---- the same, from a neighbour list
def listed(n, lists, rcut, home, xyz, numbers):
    w = NeighborList().ctor__0()
    w.num_atoms = n
    w.neighbor_lists = lists
    w.rcut = rcut
    w.bin_linked_list.supercell.prim_cell_idx = home
    w.bin_linked_list.supercell.prim_structure_info.num_atoms = n
    w.bin_linked_list.supercell.structure.num_atoms = 27 * n
    w.bin_linked_list.supercell.structure.cart_coords = xyz
    w.bin_linked_list.supercell.structure.atomic_numbers = numbers
    return w


def one_pair(n, lists, rcut, home, xyz, numbers, zc, zn, most, rs):
    p = PairTildeR().ctor__0()
    p.neighbor_list = listed(n, lists, rcut, home, xyz, numbers)
    p.center_atomic_number = zc
    p.neigh_atomic_number = zn
    p.num_neigh_atoms = most
    p.rcut = rcut
    p.rcut_smooth = rs
    p.calc_num_center_atoms__0()
    return p


def own(n, lists, rcut, home, xyz, numbers, zc, zn, most, rs):
    p = one_pair(n, lists, rcut, home, xyz, numbers, zc, zn, most, rs)
    return p.get_num_center_atoms__0(), p.get_num_neigh_atoms__0(), p.generate__0(), p.deriv__0()


def r_own(n, lists, rcut, home, xyz, numbers, zc, zn, most, rs):
    rows = sum(1 for i in range(n) if numbers[i] == zc)
    val = np.zeros((rows, most, 4))
    der = np.zeros((rows, most, 4, 3))
    c = 0
    for i in range(n):
        me = i + home * n
        if numbers[me] == zc:
            m = 0
            for j in range(len(lists[i])):
                if numbers[lists[i][j]] == zn:
                    v, g = r_entry([xyz[lists[i][j]][b] - xyz[me][b] for b in range(3)], rcut, rs)
                    for a in range(4):
                        val[c, m, a] = v[a]
                        for b in range(3):
                            der[c, m, a, b] = -g[a][b]
                    m += 1
            c += 1
    return rows, most, val, der


def all_pairs(n, lists, rcut, home, xyz, numbers, kc, zc, kn, zn, rs):
    t = TildeR().ctor__0()
    t.neighbor_list = listed(n, lists, rcut, home, xyz, numbers)
    t.num_center_atomic_numbers = kc
    t.center_atomic_numbers_lst = zc
    t.num_neigh_atomic_numbers = kn
    t.neigh_atomic_numbers_lst = zn
    t.rcut = rcut
    t.rcut_smooth = rs
    return t


def counts(n, lists, rcut, home, xyz, numbers, kc, zc, kn, zn, rs):
    t = all_pairs(n, lists, rcut, home, xyz, numbers, kc, zc, kn, zn, rs)
    t.calc_num_center_atoms_lst__0()
    t.calc_num_neigh_atoms_lst__0()
    return t.num_center_atoms_lst, t.num_neigh_atoms_lst, t.get_num_center_atoms__0(), t.get_num_neigh_atoms__0()


def r_counts(n, lists, rcut, home, xyz, numbers, kc, zc, kn, zn, rs):
    rows = [sum(1 for i in range(n) if numbers[i] == zc[o]) for o in range(kc)]
    cols = []
    for o in range(kn):
        m = 0
        for i in range(n):
            k = sum(1 for j in range(len(lists[i])) if numbers[lists[i][j]] == zn[o])
            if k > m:
                m = k
        cols.append(m)
    return rows, cols, sum(rows), sum(cols)


def joined(n, lists, rcut, home, xyz, numbers, kc, zc, kn, zn, rs, rows, cols):
    t = all_pairs(n, lists, rcut, home, xyz, numbers, kc, zc, kn, zn, rs)
    t.num_center_atoms_lst = rows
    t.num_neigh_atoms_lst = cols
    return t.generate__0()


def r_joined(n, lists, rcut, home, xyz, numbers, kc, zc, kn, zn, rs, rows, cols):
    w = listed(n, lists, rcut, home, xyz, numbers)
    out = __carray__(sum(rows[o] for o in range(kc)), sum(cols[o] for o in range(kn)), 4)
    for p in range(kc):
        top = sum(rows[o] for o in range(p))
        for q in range(kn):
            left = sum(cols[o] for o in range(q))
            t = PairTildeR().ctor__6(w, zc[p], zn[q], rows[p], cols[q], rs).generate__0()
            for c in range(rows[p]):
                for m in range(cols[q]):
                    for a in range(4):
                        out[top + c, left + m, a] = t[c, m, a]
    return out


def joinedder(n, lists, rcut, home, xyz, numbers, kc, zc, kn, zn, rs, rows, cols):
    t = all_pairs(n, lists, rcut, home, xyz, numbers, kc, zc, kn, zn, rs)
    t.num_center_atoms_lst = rows
    t.num_neigh_atoms_lst = cols
    return t.deriv__0()


def r_joinedder(n, lists, rcut, home, xyz, numbers, kc, zc, kn, zn, rs, rows, cols):
    w = listed(n, lists, rcut, home, xyz, numbers)
    out = np.zeros((sum(rows[o] for o in range(kc)), sum(cols[o] for o in range(kn)), 4, 3))
    for p in range(kc):
        top = sum(rows[o] for o in range(p))
        for q in range(kn):
            left = sum(cols[o] for o in range(q))
            t = PairTildeR().ctor__6(w, zc[p], zn[q], rows[p], cols[q], rs).deriv__0()
            for c in range(rows[p]):
                for m in range(cols[q]):
                    for a in range(4):
                        for b in range(3):
                            out[top + c, left + m, a, b] = t[c, m, a, b]
    return out


# the same tables, element by element, for numbers of centres and neighbours written out

def env_small(n, num, first, rel, types, nt, most, rcut, rs, at):
    val, der = env(n, num, first, rel, types, nt, most, rcut, rs)
    return [val[k] for k in at], [der[3 * k + 1] for k in at]


def r_env_small(n, num, first, rel, types, nt, most, rcut, rs, at):
    val, der = r_env(n, num, first, rel, types, nt, most, rcut, rs)
    return [val[k] for k in at], [der[3 * k + 1] for k in at]


def se_small(n, ilist, num, first, x, types, nt, most, rcut, rs, at):
    val, der, rel = se(n, ilist, num, first, x, types, nt, most, rcut, rs)
    return [val[k] for k in at], [der[3 * k + 2] for k in at]


def r_se_small(n, ilist, num, first, x, types, nt, most, rcut, rs, at):
    val, der, rel = r_se(n, ilist, num, first, x, types, nt, most, rcut, rs)
    return [val[k] for k in at], [der[3 * k + 2] for k in at]


def pair_small(n, ilist, num, first, x, types, zc, zn, most, rcut, rs):
    p = PairTildeR.generate__11(n, ilist, num, first, x, types, zc, zn, most, rcut, rs)
    g = PairTildeR.deriv__11(n, ilist, num, first, x, types, zc, zn, most, rcut, rs)
    return [p[c][m][a] for c in (0, 1) for m in (0, 1) for a in (0, 2)], [g[c][m][a][1] for c in (0, 1) for m in (0, 1) for a in (0, 2)]


def r_pair_small(n, ilist, num, first, x, types, zc, zn, most, rcut, rs):
    p = r_pair(n, ilist, num, first, x, types, zc, zn, most, rcut, rs)
    g = r_pairder(n, ilist, num, first, x, types, zc, zn, most, rcut, rs)
    return [p[c, m, a] for c in (0, 1) for m in (0, 1) for a in (0, 2)], [g[c, m, a, 1] for c in (0, 1) for m in (0, 1) for a in (0, 2)]
