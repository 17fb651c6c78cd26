#@ C20 matersdk/feature/graph/edge.py AdjacentMatrix.__init__
def __init__(self, structure, rcut, scaling_matrix):
    self.structure = structure
    self.rcut = rcut
    self.scaling_matrix = scaling_matrix
    assert all(n > 0 and n % 2 == 1 for n in self.scaling_matrix[:3])
#@ C20 matersdk/feature/graph/edge.py AdjacentMatrix.get_adjacent_matrix
def get_adjacent_matrix(self):
    num_atoms = self.structure.num_sites
    basis = self.structure.lattice.matrix
    frac = np.repeat(self.structure.frac_coords[:, :, np.newaxis], 1, axis=-1)
    images = self._get_shifted_supercell_frac_coords()
    adjacent_matrix = np.zeros((num_atoms, num_atoms))
    for i in range(num_atoms):
        for j in range(i, num_atoms):
            d = np.linalg.norm(np.dot(basis.T, images[j] - frac[i]), axis=0)
            count = sum(d <= self.rcut)
            if count > 0:
                adjacent_matrix[i, j] = adjacent_matrix[j, i] = count
    return adjacent_matrix - np.eye(num_atoms)
#@ C20 matersdk/feature/graph/edge.py AdjacentMatrix.get_adjacent_matrix
def get_adjacent_matrix(self):
    n = self.structure.num_sites
    lattice_t = self.structure.lattice.matrix.T
    frac = self.structure.frac_coords[:, :, np.newaxis]
    images = self._get_shifted_supercell_frac_coords()
    result = np.zeros((n, n))
    for i, j in itertools.product(range(n), range(n)):
        if j < i:
            continue
        count = np.count_nonzero(np.linalg.norm(lattice_t @ (images[j] - frac[i]), axis=0) <= self.rcut)
        if count:
            result[i, j] = count
            result[j, i] = count
    result -= np.eye(n)
    return result
#@ C20 matersdk/feature/graph/edge.py AdjacentMatrix._get_shifted_supercell_frac_coords
def _get_shifted_supercell_frac_coords(self):
    sx, sy, sz = [int((n - 1) / 2) for n in self.scaling_matrix]
    cells = [(x, y, z) for x in range(-sx, sx + 1) for y in range(-sy, sy + 1) for z in range(-sz, sz + 1)]
    shift = np.array(cells).T[np.newaxis, :, :]
    frac = np.array(self.structure.frac_coords)[:, :, np.newaxis]
    return np.repeat(frac, np.prod(self.scaling_matrix), axis=2) - shift
#@ C20 matersdk/adalearn/generator/perturbation.py PerturbStructure.perturb
def perturb(self, pert_num, cell_pert_fraction, atom_pert_distance):
    def one():
        system = self.atoms.copy()
        m = self.get_cell_perturb_matrix(cell_pert_fraction)
        system.cell = np.matmul(system.lattice.matrix, m)
        system.coords = np.matmul(system.cart_coords, m)
        for kk in range(len(system.coords)):
            system.coords[kk] = system.coords[kk] + self.get_atom_perturb_vector(atom_pert_distance)
        return self.rot_lower_triangular(system)
    return [one() for _ in range(pert_num)]
#@ C20 matersdk/adalearn/generator/perturbation.py PerturbStructure.get_cell_perturb_matrix
def get_cell_perturb_matrix(self, cell_pert_fraction):
    if cell_pert_fraction < 0:
        raise RuntimeError('cell_pert_fraction can not be negative')
    e = cell_pert_fraction * (2 * np.random.rand(6) - 1)
    m = np.eye(3)
    for i in range(3):
        m[i, i] += e[i]
    m[0, 1] = m[1, 0] = 0.5 * e[5]
    m[0, 2] = m[2, 0] = 0.5 * e[4]
    m[1, 2] = m[2, 1] = 0.5 * e[3]
    return m
#@ C20 matersdk/adalearn/generator/perturbation.py PerturbStructure.get_cell_perturb_matrix
def get_cell_perturb_matrix(self, cell_pert_fraction):
    if not cell_pert_fraction >= 0:
        raise RuntimeError('cell_pert_fraction can not be negative')
    xx, yy, zz, yz, xz, xy = (np.random.rand(6) * 2 - 1) * cell_pert_fraction
    yz, xz, xy = yz / 2, xz / 2, xy / 2
    return np.array([[1 + xx, xy, xz], [xy, 1 + yy, yz], [xz, yz, 1 + zz]])
#@ C20 matersdk/adalearn/generator/perturbation.py PerturbStructure.get_atom_perturb_vector
def get_atom_perturb_vector(self, atom_pert_distance):
    if atom_pert_distance < 0:
        raise RuntimeError('atom_pert_distance can not be negative')
    return np.random.randn(3) * (atom_pert_distance / np.sqrt(3))
#@ C20 matersdk/adalearn/generator/perturbation.py PerturbStructure.rot_lower_triangular
def rot_lower_triangular(self, atoms):
    qq, _ = np.linalg.qr(atoms.cell.T)
    if np.linalg.det(qq) < 0:
        qq = -qq
    cell = np.matmul(atoms.cell, qq)
    coords = np.matmul(atoms.coords, qq)
    rot = np.diag([-1 if cell[i][i] < 0 else 1 for i in range(3)])
    assert(np.linalg.det(rot) == 1)
    return DStructure(lattice=np.matmul(cell, rot), species=atoms.species, coords=np.matmul(coords, rot), coords_are_cartesian=True)
#@ C20 matersdk/adalearn/generator/perturbation.py PerturbStructure.rot_lower_triangular
def rot_lower_triangular(self, atoms):
    q = np.linalg.qr(atoms.cell.T)[0]
    q = -q if np.linalg.det(q) < 0 else q
    cell, coords = atoms.cell @ q, atoms.coords @ q
    rot = np.eye(3)
    for axis in range(3):
        if cell[axis, axis] < 0:
            rot[axis, axis] = -1
    assert np.linalg.det(rot) == 1
    return DStructure(cell @ rot, atoms.species, coords @ rot, coords_are_cartesian=True)
#@ C20 matersdk/adalearn/generator/perturbation.py BatchPerturbStructure.batch_perturb
@staticmethod
def batch_perturb(Perturbed, pert_num, cell_pert_fraction, atom_pert_distance):
    for folder in Perturbed:
        structure = DStructure.from_file(file_path=os.path.join(folder, "atom.config"), file_format="pwmat")
        out_dir = os.path.join(folder, 'structures')
        perturbed = PerturbStructure(structure).perturb(pert_num, cell_pert_fraction, atom_pert_distance)
        if not os.path.exists(out_dir):
            os.mkdir(out_dir)
        for k in range(len(perturbed)):
            perturbed[k].to(os.path.join(out_dir, f"{k}.config"), "pwmat")
