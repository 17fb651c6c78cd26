"""Bin-linked list and neighbour list of the C++ core."""
import numpy as np
from cxx.nblist import Structure, Supercell, BinLinkedList, NeighborList


# ---- a bin-linked list in an arbitrary state
def binned(n, xyz, home, nhome, rcut, size, low, nbin, pbc, numbers=None, basis=None, origin=None):
    b = BinLinkedList().ctor__0()
    b.supercell.structure.num_atoms = n
    b.supercell.structure.cart_coords = xyz
    b.supercell.structure.atomic_numbers = numbers
    b.supercell.prim_cell_idx = home
    b.supercell.prim_structure_info.num_atoms = nhome
    b.rcut = rcut
    b.bin_size_xyz = size
    b.min_limit_xyz = low
    b.num_bin_xyz = nbin
    b.pbc_xyz = pbc
    return b


def chains(n, xyz, size, low, bx, by, bz):
    b = binned(n, xyz, 0, n, 1.0, size, low, [bx, by, bz], [True, True, True])
    b._build__0()
    return b.heads_lst, b.nexts_lst


def r_cell(x, size, low, nbin):
    k = [int(np.floor((x[j] - low[j]) / size[j])) for j in range(3)]
    return k[0] + k[1] * nbin[0] + k[2] * nbin[0] * nbin[1]


def r_chains(n, xyz, size, low, bx, by, bz):
    heads = [-1 for _ in range(bx * by * bz)]
    nexts = []
    for i in range(n):
        c = r_cell(xyz[i], size, low, [bx, by, bz])
        nexts.append(heads[c])
        heads[c] = i
    return heads, nexts


def bin_of(n, xyz, home, nhome, size, low, nbin, i):
    return binned(n, xyz, home, nhome, 1.0, size, low, nbin, [True, True, True]).get_bin_idx__1(i)


def r_bin_of(n, xyz, home, nhome, size, low, nbin, i):
    return r_cell(xyz[i + home * nhome], size, low, nbin)


def num_near(rcut, size):
    return binned(1, None, 0, 1, rcut, size, None, None, [True, True, True]).get_num_neigh_bins__0()


def r_num_near(rcut, size):
    e = [int(np.ceil(rcut / size[j])) for j in range(3)]
    return (2 * e[0] + 1) * (2 * e[1] + 1) * (2 * e[2] + 1)


def near(n, xyz, home, nhome, rcut, size, nbin, pbc, basis, origin, i):
    b = binned(n, xyz, home, nhome, rcut, size, None, nbin, pbc)
    b.supercell.structure.basis_vectors = basis
    b.supercell.structure.pseudo_orgin = origin
    return b.get_neigh_bins__1(i)


def r_low(basis, origin):
    out = []
    for j in range(3):
        out.append(min(origin[j] + p * basis[0][j] + q * basis[1][j] + r * basis[2][j] for p in (0, 1) for q in (0, 1) for r in (0, 1)))
    return out


def r_near(n, xyz, home, nhome, rcut, size, nbin, pbc, basis, origin, i):
    low = r_low(basis, origin)
    x = xyz[i + home * nhome]
    k = [int(np.floor((x[j] - low[j]) / size[j])) for j in range(3)]
    e = [int(np.ceil(rcut / size[j])) for j in range(3)]
    out = []
    for a in range(-e[0], e[0] + 1):
        for b in range(-e[1], e[1] + 1):
            for c in range(-e[2], e[2] + 1):
                m = [k[0] + a, k[1] + b, k[2] + c]
                for j in range(3):
                    if pbc[j]:
                        m[j] = __cmod__(m[j] + nbin[j], nbin[j])
                if all(0 <= m[j] < nbin[j] for j in range(3)):
                    out.append(m[0] + m[1] * nbin[0] + m[2] * nbin[0] * nbin[1])
                else:
                    out.append(-1)
    return out


def found(n, xyz, home, nhome, rcut, size, nbin, pbc, basis, origin, heads, nexts, i):
    b = binned(n, xyz, home, nhome, rcut, size, None, nbin, pbc)
    b.supercell.structure.basis_vectors = basis
    b.supercell.structure.pseudo_orgin = origin
    b.heads_lst = heads
    b.nexts_lst = nexts
    return b.get_neigh_atoms__1(i)


def r_found(n, xyz, home, nhome, rcut, size, nbin, pbc, basis, origin, heads, nexts, i):
    low = r_low(basis, origin)
    me = xyz[i + home * nhome]
    k = [int(np.floor((me[j] - low[j]) / size[j])) for j in range(3)]
    e = [int(np.ceil(rcut / size[j])) for j in range(3)]
    out = []
    for a in range(-e[0], e[0] + 1):
        for b in range(-e[1], e[1] + 1):
            for c in range(-e[2], e[2] + 1):
                m = [k[0] + a, k[1] + b, k[2] + c]
                for j in range(3):
                    if pbc[j]:
                        m[j] = __cmod__(m[j] + nbin[j], nbin[j])
                if all(0 <= m[j] < nbin[j] for j in range(3)):
                    cell = m[0] + m[1] * nbin[0] + m[2] * nbin[0] * nbin[1]
                else:
                    cell = -1
                if cell != -1:
                    j = heads[cell]
                    while j != -1:
                        d2 = sum((xyz[j][c] - me[c]) ** 2 for c in range(3))
                        if 0.001 < d2 and d2 < rcut ** 2:
                            out.append(j)
                        j = nexts[j]
    return out


def r_found_in(n, xyz, home, nhome, rcut, size, nbin, pbc, basis, origin, heads, nexts, i):
    b = binned(n, xyz, home, nhome, rcut, size, None, nbin, pbc)
    b.supercell.structure.basis_vectors = basis
    b.supercell.structure.pseudo_orgin = origin
    b.heads_lst = heads
    b.nexts_lst = nexts
    me = xyz[i + home * nhome]
    cells = b.get_neigh_bins__1(i)
    out = []
    for q in range(r_num_near(rcut, size)):
        if cells[q] != -1:
            j = heads[cells[q]]
            while j != -1:
                d2 = sum((xyz[j][c] - me[c]) ** 2 for c in range(3))
                if 0.001 < d2 and d2 < rcut ** 2:
                    out.append(j)
                j = nexts[j]
    return out


# ---- a neighbour list in an arbitrary state
def listed(n, lists, rcut, home, xyz, numbers):
    w = NeighborList().ctor__0()
    w.num_atoms = n
    w.rcut = rcut
    w.neighbor_lists = lists
    w.bin_linked_list.supercell.prim_cell_idx = home
    w.bin_linked_list.supercell.prim_structure_info.num_atoms = n
    w.bin_linked_list.supercell.structure.num_atoms = 27 * n
    w.bin_linked_list.supercell.structure.cart_coords = xyz
    w.bin_linked_list.supercell.structure.atomic_numbers = numbers
    return w


def most(n, lists, rcut, home, xyz, numbers):
    return listed(n, lists, rcut, home, xyz, numbers).get_max_num_neigh_atoms__0()


def r_most(n, lists, rcut, home, xyz, numbers):
    best = 0
    for i in range(n):
        best = max(best, len(lists[i]))
    return best


def most_of(n, lists, rcut, home, xyz, numbers, centre, neigh):
    return listed(n, lists, rcut, home, xyz, numbers).get_max_num_neigh_atoms_ssss__2(centre, neigh)


def r_most_of(n, lists, rcut, home, xyz, numbers, centre, neigh):
    best = 0
    for i in range(n):
        if numbers[i] == centre:
            best = max(best, len([j for j in lists[i] if numbers[j] == neigh]))
    return best


def tables(n, lists, rcut, home, xyz, numbers, most):
    ilist, numneigh, first, rel, types = __carray__(n), __carray__(n), __carray__(n * most), __carray__(n * most * 3), __carray__(n)
    inum, nghost = listed(n, lists, rcut, home, xyz, numbers).find_info4mlff__8(0, ilist, numneigh, first, rel, types, 0, most)
    return inum, ilist, numneigh, first, rel, types, nghost


def r_tables(n, lists, rcut, home, xyz, numbers, most):
    first = __carray__(n * most)
    rel = __carray__(n * most * 3)
    for k in range(n * most):
        first[k] = -1
    for i in range(n):
        for j in range(len(lists[i])):
            first[i * most + j] = __cmod__(lists[i][j], n)
    for k in range(n * most * 3):
        rel[k] = 0.0
    for i in range(n):
        for j in range(len(lists[i])):
            for c in range(3):
                rel[i * most * 3 + j * 3 + c] = xyz[lists[i][j]][c] - xyz[i + home * n][c]
    ilist, numneigh, types = __carray__(n), __carray__(n), __carray__(n)
    for i in range(n):
        ilist[i] = i
        numneigh[i] = len(lists[i])
        types[i] = numbers[i]
    return n, ilist, numneigh, first, rel, types, 0


def ordered(n, rcut, home, xyz, sort):
    w = listed(n, [[] for _ in range(n)], rcut, home, xyz, None)
    w._build__1(sort)
    return w.get_neighbor_lists__0(), w.get_num_center_atoms__0(), w.get_rcut__0()


def r_ordered(n, rcut, home, xyz, sort):
    w = listed(n, [[] for _ in range(n)], rcut, home, xyz, None)
    out = []
    for i in range(n):
        near = w.bin_linked_list.get_neigh_atoms__1(i)
        if sort:
            me = xyz[i + home * n]
            far = [np.sqrt((xyz[j][0] - me[0]) ** 2 + (xyz[j][1] - me[1]) ** 2 + (xyz[j][2] - me[2]) ** 2) for j in near]
            order = list(range(len(near)))
            __csort__(order, lambda a, b: far[a] < far[b])
            near = [near[k] for k in order]
        out.append(near)
    return out, n, rcut


# ---- construction
def state(b):
    c = b.get_supercell__0()
    return b.rcut, b.get_bin_size_xyz__0(), b.pbc_xyz, b.get_num_bin_xyz__0(), b.get_min_limit_xyz__0(), c.get_scaling_matrix__0(), c.get_prim_cell_idx__0(), c.get_prim_num_atoms__0(), c.get_num_atoms__0(), c.structure.get_cart_coords__0()


def set_up(n, basis, numbers, coords, rcut, size, pbc, given):
    s = Structure().ctor__5(n, basis, numbers, coords, True)
    b = BinLinkedList().ctor__4(s, rcut, size, pbc) if given else BinLinkedList().ctor__3(s, rcut, pbc)
    return state(b)


def r_set_up(n, basis, numbers, coords, rcut, size, pbc, given):
    s = Structure().ctor__5(n, basis, numbers, coords, True)
    far = s.get_interplanar_distances__0()
    scale = [2 * int(np.ceil(rcut / far[j])) + 1 if pbc[j] else 1 for j in range(3)]
    if not given:
        size = [rcut / 2, rcut / 2, rcut / 2]
    c = Supercell().ctor__2(s, scale)
    leng = c.structure.get_projected_lengths__0()
    b = BinLinkedList().ctor__0()
    b.supercell.assign_copy(c)
    c = b.get_supercell__0()
    box = c.structure.get_limit_xyz__0()
    return rcut, [size[0], size[1], size[2]], [pbc[0], pbc[1], pbc[2]], [int(np.ceil(leng[j] / size[j])) for j in range(3)], [box[j, 0] for j in range(3)], c.get_scaling_matrix__0(), c.get_prim_cell_idx__0(), c.get_prim_num_atoms__0(), c.get_num_atoms__0(), c.structure.get_cart_coords__0()


def list_of(n, basis, numbers, coords, rcut, size, pbc, given, sort):
    s = Structure().ctor__5(n, basis, numbers, coords, True)
    w = NeighborList().ctor__5(s, rcut, size, pbc, sort) if given else NeighborList().ctor__4(s, rcut, pbc, sort)
    return w.get_num_center_atoms__0(), w.get_rcut__0(), w.get_neighbor_lists__0(), state(w.get_binLinkedList__0())


def r_list_of(n, basis, numbers, coords, rcut, size, pbc, given, sort):
    s = Structure().ctor__5(n, basis, numbers, coords, True)
    b = BinLinkedList().ctor__0()
    b.assign_copy(BinLinkedList().ctor__4(s, rcut, size, pbc) if given else BinLinkedList().ctor__3(s, rcut, pbc))
    m = b.get_supercell__0().get_prim_num_atoms__0()
    return m, rcut, [b.get_neigh_atoms__1(i) for i in range(m)], state(b)
