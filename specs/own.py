"""Value semantics of the classes of the C++ core that own memory.

Every scenario looks at what is left after copying, assigning, moving and destroying; the reference is the same look at
an object nothing happened to.
"""
from cxx.mtp import ChebyshevPoly, MtpQ, MtpMCoeffPair, MtpMCoeffPairCombs
from cxx.mtpr import RB_Chebyshev, RQ_Chebyshev, MtpParam
from cxx.nblist import Structure, Supercell, BinLinkedList, NeighborList
from cxx.deepmd import TildeR, PairTildeR


# ---- how objects are made and looked at
def blank(kind):
    if kind == "cheb":
        return ChebyshevPoly()
    if kind == "q":
        return MtpQ()
    if kind == "rb":
        return RB_Chebyshev()
    if kind == "rq":
        return RQ_Chebyshev()
    if kind == "structure":
        return Structure()
    if kind == "bins":
        return BinLinkedList()
    if kind == "list":
        return NeighborList()
    if kind == "pair":
        return PairTildeR()
    if kind == "tilde":
        return TildeR()
    if kind == "param":
        return MtpParam()
    if kind == "products":
        return MtpMCoeffPairCombs()
    return Supercell()


def ints(n, src, at):
    t = __carray__(n)
    for k in range(n):
        t[k] = src[at + k]
    return t


def quads(n, src, at):
    t = __carray__(n, 4)
    for k in range(n):
        for j in range(4):
            t[k, j] = src[at + 4 * k + j]
    return t


def fill_bins(o, n, basis, numbers, coords, rcut, h):
    o.supercell.assign_copy(Supercell().ctor__2(Structure().ctor__5(n, basis, numbers, coords, True), [3, 1, 1]))
    o.rcut = rcut
    for j in range(3):
        o.bin_size_xyz[j] = h[j]
        o.pbc_xyz[j] = h[3 + j]
        o.min_limit_xyz[j] = h[6 + j]
    o.num_bin_xyz[0] = n
    o.num_bin_xyz[1] = 1
    o.num_bin_xyz[2] = 2
    o.heads_lst = ints(2 * n, h, 9)
    o.nexts_lst = ints(o.supercell.get_num_atoms__0(), h, 99)


def fill_list(o, n, basis, numbers, coords, rcut, h):
    fill_bins(o.bin_linked_list, n, basis, numbers, coords, rcut, h)
    o.num_atoms = n
    o.rcut = rcut
    o.neighbor_lists = [[h[200 + 10 * i + j] for j in range(2 * i + 1)] for i in range(n)]


def made(kind, args):
    if kind in ("cheb", "q", "rb", "rq"):
        n, r, rcut, rs = args
        o = blank(kind).ctor__3(n, rcut, rs)
        o.build__1(r)
        return o
    if kind in ("bins", "list", "pair", "tilde", "param"):
        n, basis, numbers, coords, rcut, h = args
        o = blank(kind).ctor__0()
        if kind == "bins":
            fill_bins(o, *args)
            return o
        if kind == "list":
            fill_list(o, *args)
            return o
        if kind == "param":
            o._alpha_moments_count = h[0]
            o._alpha_index_basic_count = n
            o._alpha_index_basic = quads(n, h, 10)
            o._alpha_index_times_count = n + 1
            o._alpha_index_times = quads(n + 1, h, 50)
            o._alpha_scalar_moments = n + 2
            o._alpha_moment_mapping = ints(n + 2, h, 90)
            return o
        fill_list(o.neighbor_list, *args)
        o.rcut = rcut
        o.rcut_smooth = h[300]
        if kind == "pair":
            o.center_atomic_number = h[301]
            o.neigh_atomic_number = h[302]
            o.num_center_atoms = h[303]
            o.num_neigh_atoms = h[304]
            return o
        o.num_center_atomic_numbers = n
        o.center_atomic_numbers_lst = ints(n, h, 310)
        o.num_center_atoms_lst = ints(n, h, 320)
        o.num_neigh_atomic_numbers = n + 1
        o.neigh_atomic_numbers_lst = ints(n + 1, h, 330)
        o.num_neigh_atoms_lst = ints(n + 1, h, 340)
        return o
    n, basis, numbers, coords = args
    s = Structure().ctor__5(n, basis, numbers, coords, True)
    if kind == "structure":
        return s
    return Supercell().ctor__2(s, [3, 1, 1])


def see_structure(o):
    n = o.get_num_atoms__0()
    a, z, x = o.get_basis_vectors__0(), o.get_atomic_numbers__0(), o.get_cart_coords__0()
    return n, [[a[i][j] for j in range(3)] for i in range(3)] if n else None, [z[i] for i in range(n)], [[x[i][j] for j in range(3)] for i in range(n)]


def see_supercell(o):
    n = o.get_num_atoms__0()
    m = o.get_prim_num_atoms__0()
    k, c, w = o.get_scaling_matrix__0(), o.get_prim_cell_idx_xyz__0(), o.get_owned_atom_idxs__0()
    return n, m, [k[i] for i in range(3)], [c[i] for i in range(3)], o.get_prim_cell_idx__0(), [w[i] for i in range(m)], see_structure(o.get_structure__0())


def see_bins(o):
    m, u, l, p = o.get_num_bin_xyz__0(), o.get_bin_size_xyz__0(), o.get_min_limit_xyz__0(), o.pbc_xyz
    c = o.get_supercell__0()
    n = c.get_num_atoms__0()
    return see_supercell(c), o.rcut, [m[j] for j in range(3)], [u[j] for j in range(3)], [l[j] for j in range(3)], [p[j] for j in range(3)], [o.heads_lst[k] for k in range(m[0] * m[1] * m[2])], [o.nexts_lst[k] for k in range(n)]


def see_list(o):
    n = o.get_num_center_atoms__0()
    return n, o.get_rcut__0(), [[o.neighbor_lists[i][j] for j in range(len(o.neighbor_lists[i]))] for i in range(n)], see_bins(o.get_binLinkedList__0())


def seen(kind, o):
    if kind == "structure":
        return see_structure(o)
    if kind == "supercell":
        return see_supercell(o)
    if kind == "bins":
        return see_bins(o)
    if kind == "list":
        return see_list(o)
    if kind == "pair":
        return see_list(o.neighbor_list), o.center_atomic_number, o.neigh_atomic_number, o.num_center_atoms, o.num_neigh_atoms, o.rcut, o.rcut_smooth
    if kind == "tilde":
        a, b = o.num_center_atomic_numbers, o.num_neigh_atomic_numbers
        return (see_list(o.neighbor_list), a, b, [o.center_atomic_numbers_lst[k] for k in range(a)], [o.num_center_atoms_lst[k] for k in range(a)],
                [o.neigh_atomic_numbers_lst[k] for k in range(b)], [o.num_neigh_atoms_lst[k] for k in range(b)], o.rcut, o.rcut_smooth)
    if kind == "param":
        a, b, c = o.alpha_index_basic_count__0(), o.alpha_index_times_count__0(), o.alpha_scalar_moments__0()
        return (o.alpha_moments_count__0(), a, b, c, [[o.alpha_index_basic__0()[k, j] for j in range(4)] for k in range(a)],
                [[o.alpha_index_times__0()[k, j] for j in range(4)] for k in range(b)], [o.alpha_moment_mapping__0()[k] for k in range(c)])
    n = o.size__0()
    if kind == "cheb":
        v, d, e = o.get_result__0(), o.get_deriv2xi__0(), o.get_deriv2r__0()
        return n, [v[k] for k in range(n)], [d[k] for k in range(n)], [e[k] for k in range(n)]
    if kind == "q":
        v, e = o.get_result__0(), o.get_deriv2r__0()
        return n, [v[k] for k in range(n)], [e[k] for k in range(n)]
    if kind == "rb":
        v, d, e = o.vals__0(), o.ders2uu__0(), o.ders2r__0()
        return n, o.rmax__0(), o.rmin__0(), [v[k] for k in range(n)], [d[k] for k in range(n)], [e[k] for k in range(n)]
    v, e = o.vals__0(), o.ders2r__0()
    return n, o.rmax__0(), o.rmin__0(), [v[k] for k in range(n)], [e[k] for k in range(n)]


def touched(kind, o, args):
    """change the object by its own means"""
    if kind in ("cheb", "q", "rb", "rq"):
        o.build__1(2 * args[1] + 1)


# ---- scenarios
def plain(kind, *args):
    return seen(kind, made(kind, args))


def copied(kind, *args):
    a = made(kind, args)
    b = blank(kind).ctor_copy(a)
    touched(kind, a, args)
    a.dtor()
    t = seen(kind, b)
    b.dtor()
    return t


def original(kind, *args):
    a = made(kind, args)
    b = blank(kind).ctor_copy(a)
    touched(kind, b, args)
    b.dtor()
    t = seen(kind, a)
    a.dtor()
    return t


def assigned(kind, *args):
    a = made(kind, args)
    b = blank(kind).ctor__0()
    b.assign_copy(a)
    touched(kind, a, args)
    a.dtor()
    t = seen(kind, b)
    b.dtor()
    return t


def replaced(kind, *args):
    a = made(kind, args)
    b = made(kind, (args[0] + 2,) + args[1:])
    b.assign_copy(a)
    touched(kind, a, args)
    a.dtor()
    t = seen(kind, b)
    b.dtor()
    return t


def itself(kind, *args):
    a = made(kind, args)
    a.assign_copy(a)
    t = seen(kind, a)
    a.dtor()
    return t


def returned(kind, *args):
    a = made(kind, args)
    b = blank(kind).ctor__0()
    return b.assign_copy(a) is b


def yes(kind, *args):
    return True


def moved(kind, *args):
    a = made(kind, args)
    b = blank(kind).ctor_move(a)
    k = a.size__0() if kind != "param" else a.alpha_index_basic_count__0() + a.alpha_index_times_count__0() + a.alpha_scalar_moments__0()
    a.dtor()
    t = seen(kind, b)
    b.dtor()
    return k, t


def r_moved(kind, *args):
    return 0, seen(kind, made(kind, args))


def move_assigned(kind, *args):
    a = made(kind, args)
    b = made(kind, (args[0] + 2,) + args[1:])
    same = b.assign_move(a) is b
    k = a.size__0() if kind != "param" else a.alpha_index_basic_count__0() + a.alpha_index_times_count__0() + a.alpha_scalar_moments__0()
    a.dtor()
    t = seen(kind, b)
    b.dtor()
    return same, k, t


def r_move_assigned(kind, *args):
    return True, 0, seen(kind, made(kind, args))


def move_itself(kind, *args):
    a = made(kind, args)
    a.assign_move(a)
    t = seen(kind, a)
    a.dtor()
    return t


def cleared(kind, *args):
    """overwritten with an empty object, filled again"""
    a = made(kind, args)
    e = blank(kind).ctor__0()
    a.assign_copy(e)
    t = seen(kind, a)
    b = made(kind, args)
    a.assign_copy(b)
    b.dtor()
    u = seen(kind, a)
    a.dtor()
    e.dtor()
    return t, u


def r_cleared(kind, *args):
    return seen(kind, blank(kind).ctor__0()), seen(kind, made(kind, args))


def empties(kind, *args):
    a = blank(kind).ctor__0()
    b = blank(kind).ctor_copy(a)
    b.assign_copy(a)
    a.dtor()
    t = seen(kind, b)
    b.dtor()
    return t


def r_empties(kind, *args):
    return seen(kind, blank(kind).ctor__0())


def emptied(kind, *args):
    a = made(kind, args)
    e = blank(kind).ctor__0()
    a.assign_copy(e)
    t = seen(kind, a)
    a.dtor()
    e.dtor()
    return t


def rebuilt(kind, *args):
    """a copy, and an assigned object, can be built again on their own"""
    a = made(kind, args)
    b = blank(kind).ctor_copy(a)
    c = made(kind, (args[0] + 2,) + args[1:])
    c.assign_copy(a)
    a.dtor()
    b.build__1(args[1] / 3)
    c.build__1(args[1] / 3)
    t, u = seen(kind, b), seen(kind, c)
    b.dtor()
    c.dtor()
    return t, u


def r_rebuilt(kind, *args):
    t = seen(kind, made(kind, (args[0], args[1] / 3) + args[2:]))
    return t, t


def moved_on(kind, *args):
    """moved objects can be built again on their own; what they were moved from can be filled again"""
    a = made(kind, args)
    b = blank(kind).ctor_move(a)
    b.build__1(args[1] / 3)
    c = made(kind, (args[0] + 2,) + args[1:])
    c.assign_move(b)
    c.build__1(args[1] / 5)
    a.assign_copy(c)
    b.assign_copy(a)
    t, u, v = seen(kind, a), seen(kind, b), seen(kind, c)
    a.dtor()
    b.dtor()
    c.dtor()
    return t, u, v


def r_moved_on(kind, *args):
    t = seen(kind, made(kind, (args[0], args[1] / 5) + args[2:]))
    return t, t, t


# ---- memory is given back
def held(kind, o):
    if kind == "cheb":
        return [o.get_result__0(), o.get_deriv2xi__0(), o.get_deriv2r__0()]
    if kind == "q":
        return [o.get_result__0(), o.get_deriv2r__0()]
    if kind == "rb":
        return [o.vals__0(), o.ders2uu__0(), o.ders2r__0()]
    if kind == "rq":
        return [o.vals__0(), o.ders2r__0()]
    if kind == "structure":
        return [o.get_atomic_numbers__0(), o.get_basis_vectors__0(), o.get_cart_coords__0(), o.get_pseudo_origin__0()]
    if kind == "supercell":
        return [o.get_owned_atom_idxs__0()]
    if kind == "param":
        return [o.alpha_index_basic__0(), o.alpha_index_times__0(), o.alpha_moment_mapping__0()]
    if kind == "bins":
        return [o.heads_lst, o.nexts_lst]
    if kind == "tilde":
        return [o.center_atomic_numbers_lst, o.num_center_atoms_lst, o.neigh_atomic_numbers_lst, o.num_neigh_atoms_lst]
    return []


def destroyed(kind, *args):
    a = made(kind, args)
    h = held(kind, a)
    a.dtor()
    return [__freed__(x) for x in h]


def overwritten(kind, *args):
    a = made(kind, args)
    b = made(kind, args)
    h = held(kind, b)
    b.assign_copy(a)
    return [__freed__(x) for x in h]


def overwritten_by_move(kind, *args):
    a = made(kind, args)
    b = made(kind, args)
    h = held(kind, b)
    b.assign_move(a)
    a.dtor()
    return [__freed__(x) for x in h]


def all_given_back(kind, *args):
    return [True for x in held(kind, made(kind, args))]
