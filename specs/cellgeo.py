"""Crystal structures of the C++ core: coordinates, supercells, distances between lattice planes, bounding box."""
import numpy as np
from cxx.nblist import Structure, Supercell, dot__2, cross__2, normalize__1, norm__1


# ---- how a user of the C++ interface obtains the quantities
def built(n, basis, numbers, coords, cart):
    s = Structure().ctor__5(n, basis, numbers, coords, cart)
    return s.get_num_atoms__0(), s.get_basis_vectors__0(), s.get_atomic_numbers__0(), s.get_cart_coords__0(), s.get_pseudo_origin__0()


def built_rows(n, basis, numbers, coords, cart):
    s = Structure().ctor__5_int_double_3_int_double_3_bool(n, basis, numbers, coords, cart)
    return s.get_num_atoms__0(), s.get_basis_vectors__0(), s.get_atomic_numbers__0(), s.get_cart_coords__0(), s.get_pseudo_origin__0()


def emptied(n, basis, numbers, coords, cart):
    s = Structure().ctor__5(n, basis, numbers, coords, cart)
    s.assign_copy(Structure().ctor__0())
    return s.get_num_atoms__0(), s.get_basis_vectors__0(), s.get_atomic_numbers__0(), s.get_cart_coords__0()


def r_emptied(n, basis, numbers, coords, cart):
    return 0, None, None, None


def replaced(n, basis, numbers, coords, cart):
    s = Structure().ctor__5(2 * n + 1, basis, numbers, coords, cart)
    s.make_supercell__1([2, 1, 1])
    s.assign_copy(Structure().ctor__5(n, basis, numbers, coords, cart))
    return s.get_num_atoms__0(), s.get_basis_vectors__0(), s.get_atomic_numbers__0(), s.get_cart_coords__0(), s.get_pseudo_origin__0()


def copied(n, basis, numbers, coords, cart):
    s = Structure().ctor_copy(Structure().ctor__5(n, basis, numbers, coords, cart))
    return s.get_num_atoms__0(), s.get_basis_vectors__0(), s.get_atomic_numbers__0(), s.get_cart_coords__0(), s.get_pseudo_origin__0()


def assigned(n, basis, numbers, coords, cart):
    s = Structure().ctor__0()
    s.assign_copy(Structure().ctor__5(n, basis, numbers, coords, cart))
    return s.get_num_atoms__0(), s.get_basis_vectors__0(), s.get_atomic_numbers__0(), s.get_cart_coords__0(), s.get_pseudo_origin__0()


def projected(n, basis, numbers, coords):
    return Structure().ctor__5(n, basis, numbers, coords, True).get_projected_lengths__0()


def planes(n, basis, numbers, coords):
    return Structure().ctor__5(n, basis, numbers, coords, True).get_interplanar_distances__0()


def corners(n, basis, numbers, coords):
    return Structure().ctor__5(n, basis, numbers, coords, True).get_vertexes__0()


def limits(n, basis, numbers, coords):
    return Structure().ctor__5(n, basis, numbers, coords, True).get_limit_xyz__0()


def size(k, kind):
    return 1 if kind == 0 else 2 * k if kind == 1 else 2 * k + 1


def enlarged(n, basis, numbers, coords, kx, ky, kz, px, py, pz):
    sx, sy, sz = size(kx, px), size(ky, py), size(kz, pz)
    s = Structure().ctor__5(n, basis, numbers, coords, True)
    s.make_supercell__1([sx, sy, sz])
    return s.get_num_atoms__0(), s.get_basis_vectors__0(), s.get_atomic_numbers__0(), s.get_cart_coords__0(), s.get_pseudo_origin__0()


def outline(n, basis, numbers, coords, kx, ky, kz, px, py, pz):
    sx, sy, sz = size(kx, px), size(ky, py), size(kz, pz)
    s = Structure().ctor__5(n, basis, numbers, coords, True)
    s.make_supercell__1([sx, sy, sz])
    return s.get_vertexes__0(), s.get_limit_xyz__0(), s.get_projected_lengths__0(), s.get_pseudo_origin__0()


def outline_of_copy(n, basis, numbers, coords, kx, ky, kz, px, py, pz):
    sx, sy, sz = size(kx, px), size(ky, py), size(kz, pz)
    s = Structure().ctor__5(n, basis, numbers, coords, True)
    s.make_supercell__1([sx, sy, sz])
    s = Structure().ctor_copy(s)
    return s.get_vertexes__0(), s.get_limit_xyz__0(), s.get_projected_lengths__0(), s.get_pseudo_origin__0()


def home(n, basis, numbers, coords, kx, ky, kz, px, py, pz):
    sx, sy, sz = size(kx, px), size(ky, py), size(kz, pz)
    c = Supercell().ctor__2(Structure().ctor__5(n, basis, numbers, coords, True), [sx, sy, sz])
    return c.get_prim_cell_idx_xyz__0(), c.get_prim_cell_idx__0(), c.get_owned_atom_idxs__0(), c.get_num_atoms__0(), c.get_prim_num_atoms__0(), c.get_scaling_matrix__0()


def vec3(a, b):
    return dot__2(a, b), cross__2(a, b), norm__1(a), normalize__1(a)


# ---- what they have to be
def r_built(n, basis, numbers, coords, cart):
    if cart:
        xyz = [[coords[i][j] for j in range(3)] for i in range(n)]
    else:
        xyz = [[sum(coords[i][k] * basis[k][j] for k in range(3)) for j in range(3)] for i in range(n)]
    return n, [[basis[i][j] for j in range(3)] for i in range(3)], [numbers[i] for i in range(n)], xyz, [0, 0, 0]


def r_projected(n, basis, numbers, coords):
    return [sum(abs(basis[i][j]) for i in range(3)) for j in range(3)]


def r_cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def r_vec3(a, b):
    leng = np.sqrt(a[0] ** 2 + a[1] ** 2 + a[2] ** 2)
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2], r_cross(a, b), leng, [a[0] / leng, a[1] / leng, a[2] / leng]


def r_planes(n, basis, numbers, coords):
    out = []
    for k in range(3):
        i, j = [m for m in range(3) if m != k]
        v = r_cross(basis[i], basis[j])
        size = np.sqrt(v[0] ** 2 + v[1] ** 2 + v[2] ** 2)
        out.append(abs(basis[k][0] * (v[0] / size) + basis[k][1] * (v[1] / size) + basis[k][2] * (v[2] / size)))
    return out


def r_corners(n, basis, numbers, coords):
    return [[a * basis[0][j] + b * basis[1][j] + c * basis[2][j] for j in range(3)] for a in (0, 1) for b in (0, 1) for c in (0, 1)]


def r_limits(n, basis, numbers, coords):
    pts = r_corners(n, basis, numbers, coords)
    return [[min(p[j] for p in pts), max(p[j] for p in pts)] for j in range(3)]


def span(s):
    """cells along one axis: the original cell in the middle, one more on the positive side when the number is even"""
    if s % 2 == 0:
        return 1 - s // 2, s // 2
    return -((s - 1) // 2), (s - 1) // 2


def r_enlarged(n, basis, numbers, coords, kx, ky, kz, px, py, pz):
    sx, sy, sz = size(kx, px), size(ky, py), size(kz, pz)
    scale = [sx, sy, sz]
    lo = [span(s)[0] for s in scale]
    hi = [span(s)[1] for s in scale]
    total = n * sx * sy * sz
    kinds = __carray__(total)
    for c in range(sx * sy * sz):
        for i in range(n):
            kinds[c * n + i] = numbers[i]
    xyz = __carray__(total, 3)
    at = 0
    for a in range(lo[0], hi[0] + 1):
        for b in range(lo[1], hi[1] + 1):
            for c in range(lo[2], hi[2] + 1):
                for i in range(n):
                    for j in range(3):
                        xyz[at, j] = coords[i][j] + a * basis[0][j] + b * basis[1][j] + c * basis[2][j]
                    at += 1
    return total, [[basis[i][j] * scale[i] for j in range(3)] for i in range(3)], kinds, xyz, [sum(lo[i] * basis[i][j] for i in range(3)) for j in range(3)]


def r_outline(n, basis, numbers, coords, kx, ky, kz, px, py, pz):
    scale = [size(kx, px), size(ky, py), size(kz, pz)]
    origin = [sum(span(scale[i])[0] * basis[i][j] for i in range(3)) for j in range(3)]
    pts = [[origin[j] + a * scale[0] * basis[0][j] + b * scale[1] * basis[1][j] + c * scale[2] * basis[2][j] for j in range(3)] for a in (0, 1) for b in (0, 1) for c in (0, 1)]
    return pts, [[min(p[j] for p in pts), max(p[j] for p in pts)] for j in range(3)], [sum(abs(scale[i] * basis[i][j]) for i in range(3)) for j in range(3)], origin


def r_home(n, basis, numbers, coords, kx, ky, kz, px, py, pz):
    sx, sy, sz = size(kx, px), size(ky, py), size(kz, pz)
    scale = [sx, sy, sz]
    at = [-span(s)[0] for s in scale]
    cell = (at[0] * sy + at[1]) * sz + at[2]           # same order as make_supercell: z runs fastest
    return at, cell, [cell * n + i for i in range(n)], n * sx * sy * sz, n, scale
