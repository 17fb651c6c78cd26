#@ C08 matersdk/io/publicLayer/neigh.py StructureNeighborsUtils.get_max_num_nbrs_real
@staticmethod
def get_max_num_nbrs_real(structure, rcut, scaling_matrix, coords_are_cartesian=True):
    key_idxs = structure.get_key_idxs(scaling_matrix=scaling_matrix)
    supercell = structure.make_supercell_(scaling_matrix=scaling_matrix, reformat_mark=True)
    coords = supercell.cart_coords if coords_are_cartesian else supercell.frac_coords
    largest = 0
    for center_idx in key_idxs:
        distances = np.linalg.norm(coords - coords[center_idx].reshape(1, 3), axis=1)
        largest = max(largest, np.count_nonzero(distances <= rcut))
    return largest - 1
#@ C08 matersdk/io/publicLayer/neigh.py StructureNeighborsUtils.get_max_num_nbrs_real
@staticmethod
def get_max_num_nbrs_real(structure, rcut, scaling_matrix, coords_are_cartesian=True):
    key_idxs = structure.get_key_idxs(scaling_matrix=scaling_matrix)
    supercell = structure.make_supercell_(scaling_matrix=scaling_matrix, reformat_mark=True)
    supercell_coords = supercell.frac_coords
    if coords_are_cartesian:
        supercell_coords = supercell.cart_coords
    def count(idx):
        d = np.linalg.norm(supercell_coords - supercell_coords[idx].reshape(1, 3), axis=1)
        return np.count_nonzero(np.where(d <= rcut, True, False))
    max_num_nbrs = 0
    for idx in key_idxs:
        n = count(idx)
        if n > max_num_nbrs:
            max_num_nbrs = n
    return max_num_nbrs - 1
#@ C08 matersdk/io/publicLayer/neigh.py StructureNeighborsUtils.get_nbrs_indices
@staticmethod
def get_nbrs_indices(struct_nbr, center_atomic_numbers, nbr_atomic_numbers, max_num_nbrs=False):
    blocks = []
    for center_an in center_atomic_numbers:
        row = [StructureNeighborsUtils._get_nbrs_indices(struct_nbr=struct_nbr, center_atomic_number=center_an, nbr_atomic_number=nbr_an, max_num_nbrs=max_num_nbrs[i]) for i, nbr_an in enumerate(nbr_atomic_numbers)]
        blocks.append(np.concatenate(row, axis=1))
    return np.concatenate(blocks, axis=0)
#@ C08 matersdk/io/publicLayer/neigh.py StructureNeighborsV1._get_key_neighs_info
def _get_key_neighs_info(self, scaling_matrix, rcut, coords_are_cartesian):
    key_idxs = self.structure.get_key_idxs(scaling_matrix=scaling_matrix)
    numbers = np.array([site.specie.Z for site in self.supercell.sites])
    if not coords_are_cartesian:
        coords = self.supercell.frac_coords
    else:
        coords = self.supercell.cart_coords
    num_keys = len(key_idxs)
    num_atoms = numbers.shape[0]
    nbr_coords = np.zeros((num_keys, num_atoms, 3))
    nbr_distances = np.zeros((num_keys, num_atoms))
    nbr_atomic_numbers = np.zeros((num_keys, num_atoms))
    widest = 0
    for row, center in enumerate(key_idxs):
        dist = np.linalg.norm(coords - coords[center].reshape(1, 3), axis=1)
        count = np.count_nonzero(dist <= rcut)
        widest = max(widest, count)
        order = np.argsort(dist)[:count]
        nbr_coords[row, :count, :] = coords[order, :]
        nbr_distances[row, :count] = dist[order]
        nbr_atomic_numbers[row, :count] = numbers[order]
    return nbr_atomic_numbers[:, :widest], nbr_distances[:, :widest], nbr_coords[:, :widest, :]
#@ C09 matersdk/feature/deepmd/premise.py DpFeaturePairPremiseV1.expand_rc
def expand_rc(self, center_atomic_number, nbr_atomic_number, max_num_nbrs):
    _, _, rc = self.extract_feature_pair(center_atomic_number=center_atomic_number, nbr_atomic_number=nbr_atomic_number)
    num_centers, num_real = rc.shape[0], rc.shape[1]
    assert num_real <= max_num_nbrs
    padded = np.zeros((num_centers, max_num_nbrs, 3))
    padded[:, :num_real, :] = rc
    return padded
#@ C09 matersdk/feature/deepmd/se_pair.py DpseTildeRPairV1._get_s
def _get_s(self, rcut, rcut_smooth):
    d = self.dp_feature_pair_d
    inv = np.where(d == 0, 0, np.reciprocal(d))
    x = (d - rcut_smooth) / (rcut - rcut_smooth)
    switch = x ** 3 * (-6 * x ** 2 + 15 * x - 10) + 1
    s = np.where((d > rcut_smooth) & (d < rcut), inv * switch, inv)
    return np.where(d < rcut, s, 0)
#@ C09 matersdk/feature/deepmd/se_pair.py DpseTildeRPairV1._get_s
def _reciprocal(self):
    return np.where(self.dp_feature_pair_d == 0, 0, np.reciprocal(self.dp_feature_pair_d))

def _get_s(self, rcut, rcut_smooth):
    inv = self._reciprocal()
    u = (self.dp_feature_pair_d - rcut_smooth) / (rcut - rcut_smooth)
    scaled = inv * (1 + np.power(u, 3) * (15 * u - 6 * np.power(u, 2) - 10))
    inside = (self.dp_feature_pair_d < rcut) & (self.dp_feature_pair_d > rcut_smooth)
    s = np.where(inside, scaled, inv)
    return np.where(self.dp_feature_pair_d < rcut, s, 0)
#@ C09 matersdk/feature/deepmd/se_pair.py DpseTildeRPairV1._get_tildeR
def _get_tildeR(self, rcut, rcut_smooth):
    s = self._get_s(rcut=rcut, rcut_smooth=rcut_smooth)[:, :, np.newaxis]
    inv = np.where(self.dp_feature_pair_d == 0, 0, np.reciprocal(self.dp_feature_pair_d))[:, :, np.newaxis]
    return np.concatenate([s, s * inv * self.dp_feature_pair_rc], axis=2)
#@ C09 matersdk/feature/deepmd/se_pair.py DpseTildeRPairV1._calc_derivative
def _calc_derivative(self):
    d = self.dp_feature_pair_d
    rc = self.dp_feature_pair_rc
    duu = 1 / (self.rcut - self.rcut_smooth)
    uu = (d - self.rcut_smooth) / (self.rcut - self.rcut_smooth)
    poly = -6 * np.power(uu, 2) + 15 * uu - 10
    vv = np.where(d < self.rcut_smooth, 1, np.power(uu, 3) * poly + 1)
    vv = np.where(d < self.rcut, vv, 0)
    dvv = np.where(d < self.rcut_smooth, 0, (3 * np.power(uu, 2) * poly + np.power(uu, 3) * (15 - 12 * uu)) * duu)
    dvv = np.where(d < self.rcut, dvv, 0)
    inv = np.where(d == 0, 0, np.reciprocal(d))
    out = np.zeros(shape=(d.shape[0], d.shape[1], 4, 3))
    for j in range(3):
        out[:, :, 0, j] = vv * rc[:, :, j] * np.power(inv, 3) - inv * dvv * rc[:, :, j] * inv
    for i in range(3):
        for j in range(3):
            second = rc[:, :, i] * np.power(inv, 2) * dvv * rc[:, :, j] * inv
            first = 2 * rc[:, :, i] * rc[:, :, j] * np.power(inv, 4)
            if i == j:
                first = first - np.power(inv, 2)
            out[:, :, i + 1, j] = vv * first - second
    return out
#@ C11 matersdk/io/pwmat/output/report.py Report._search_aim
def _search_aim(self, aim_content):
    with open(self.report_path, 'r') as f:
        return [idx for idx, line in enumerate(f.readlines(), 1) if aim_content in line]
#@ C11 matersdk/io/pwmat/output/report.py Report._search_aim
def _search_aim(self, aim_content):
    idxs_lst = []
    with open(self.report_path, 'r') as f:
        for idx, line in enumerate(f):
            if aim_content in line:
                idxs_lst.append(idx + 1)
    return idxs_lst
#@ C11 matersdk/io/pwmat/output/report.py Report.get_num_bands
def _last_int(self, aim_content):
    idx = self._search_aim(aim_content=aim_content)[0]
    return int(linecache.getline(self.report_path, idx).split()[-1])

def get_num_bands(self):
    return self._last_int('NUM_BAND')
#@ C11 matersdk/io/pwmat/output/report.py Report.get_eigen_energies
def get_eigen_energies(self):
    num_kpts = self.get_num_kpts()
    num_bands = self.get_num_bands()
    starts = self._search_aim(aim_content='eigen energies, in eV')
    with open(self.report_path, 'r') as f:
        lines = f.readlines()
    num_lines = int(np.ceil(num_bands / self.COLUMN_PER_LINE))
    up, down = [], []
    for i, start in enumerate(starts):
        values = np.array([float(word) for line in lines[start: start + num_lines] for word in line.split()])
        target = up if i < num_kpts else down
        target.append(values)
    return {'up': np.array(up), 'down': np.array(down)}
#@ C11 matersdk/io/pwmat/output/report.py Report._is_metal
def _is_metal(self, out_fermi_path, efermi_tol=0.0001):
    if not os.path.exists(out_fermi_path):
        raise '当前目录下不存在 OUT.FERMI 文件，无法读取费米能级！'
    efermi_ev = OutFermi(out_fermi_path=out_fermi_path).get_efermi()
    spin2eigen_energies = self.get_eigen_energies()
    for spin in spin2eigen_energies:
        bands = spin2eigen_energies[spin].T
        for idx_band in range(bands.shape[0]):
            shifted = bands[idx_band, :] - efermi_ev
            below = np.any(shifted < -efermi_tol)
            above = np.any(shifted > efermi_tol)
            if below and above:
                return True
    return False
#@ C11 matersdk/io/pwmat/output/report.py Report.get_bandgap_type
def get_bandgap_type(self, out_fermi_path):
    vbm_dict = self.get_vbm(out_fermi_path=out_fermi_path)
    cbm_dict = self.get_cbm(out_fermi_path=out_fermi_path)
    intersection = np.intersect1d(vbm_dict['kpts'], cbm_dict['kpts'])
    return 0 if intersection.size == 0 else 1
#@ C11 matersdk/io/pwmat/output/report.py Report.get_bandgap_type
def get_bandgap_type(self, out_fermi_path):
    vbm_kpts = self.get_vbm(out_fermi_path=out_fermi_path)['kpts']
    cbm_kpts = self.get_cbm(out_fermi_path=out_fermi_path)['kpts']
    if set(vbm_kpts) & set(cbm_kpts):
        return 1
    return 0
#@ C11 matersdk/io/pwmat/output/report.py Report.get_cbm
def get_cbm(self, out_fermi_path):
    if self._is_metal(out_fermi_path=out_fermi_path):
        return None
    efermi_ev = OutFermi(out_fermi_path=out_fermi_path).get_efermi()
    spin2eigen_energies = self.get_eigen_energies()
    spins = list(spin2eigen_energies.keys())
    cbm_energy, cbm_kpt, cbm_band, cbm_spin = float('inf'), 0, 0, None
    for spin in spins:
        energies = spin2eigen_energies[spin]
        for row, col in zip(*np.where(energies >= efermi_ev)):
            value = energies[row][col]
            if value < cbm_energy:
                cbm_energy = round(float(value), 4)
                cbm_kpt, cbm_band, cbm_spin = row + 1, col + 1, spin
    energies_lst, kpts, bands, spins_lst = [cbm_energy], [cbm_kpt], [cbm_band], [cbm_spin]
    num_bands = spin2eigen_energies['up'].shape[1]
    for spin in spins:
        for idx_band in range(num_bands):
            if spin == cbm_spin and idx_band + 1 == cbm_band:
                continue
            try:
                if abs(spin2eigen_energies[spin][cbm_kpt - 1][idx_band] - cbm_energy) < 0.001:
                    energies_lst.append(cbm_energy)
                    kpts.append(cbm_kpt)
                    bands.append(idx_band + 1)
                    spins_lst.append(spin)
            except:
                pass
    return {'energies': energies_lst, 'kpts': kpts, 'bands': bands, 'spins': spins_lst}
#@ C12 matersdk/io/pwmat/input/inkpt.py Inkpt.get_kpt_coords_frac
def get_kpt_coords_frac(self):
    with open(self.in_kpt_path, 'r') as f:
        rows = f.readlines()[2:]
    return np.array([[float(v) for v in row.split()[:3]] for row in rows])
#@ C12 matersdk/io/pwmat/input/inkpt.py Inkpt.get_kpt_coords_Bohr
def get_kpt_coords_Bohr(self, atom_config_path):
    return self.get_kpt_coords_A(atom_config_path=atom_config_path) * 0.529177249
#@ C12 matersdk/io/pwmat/input/inkpt.py Inkpt.get_kpt_weights
def get_kpt_weights(self):
    weights_lst = []
    with open(self.in_kpt_path, 'r') as f:
        for tmp_line in f.readlines()[2:]:
            weights_lst.append(float(tmp_line.split()[3]))
    return weights_lst
#@ C12 matersdk/io/pwmat/input/inkpt.py Inkpt.get_hsp
def get_hsp(self):
    with open(self.in_kpt_path, 'r') as f:
        rows = [line.split() for line in f.readlines()[2:]]
    labelled = [row for row in rows if len(row) == 5]
    return {'hsp': [row[-1] for row in labelled], 'coords_frac': [[float(v) for v in row[:3]] for row in labelled]}
#@ C12 matersdk/io/pwmat/input/inkpt.py Inkpt._get_idx2hsp
def _get_idx2hsp(self):
    with open(self.in_kpt_path) as f:
        lines_lst = f.readlines()[2:]
    idx2hsp = {}
    for i in range(len(lines_lst)):
        words = lines_lst[i].split()
        if len(words) != 5:
            continue
        idx2hsp[i] = words[-1]
    return idx2hsp
#@ C12 matersdk/io/pwmat/input/inkpt.py Inkpt._get_idx2hsp
def _get_idx2hsp(self):
    with open(self.in_kpt_path) as f:
        lines_lst = f.readlines()[2:]
    return {i: line.split()[-1] for i, line in enumerate(lines_lst) if len(line.split()) == 5}
#@ C12 matersdk/io/pwmat/input/inkpt.py Inkpt._get_distance_from_nbr
def _get_distance_from_nbr(self, atom_config_path):
    coords = self.get_kpt_coords_A(atom_config_path=atom_config_path)
    steps = np.linalg.norm(np.diff(coords, axis=0), axis=1)
    distances = [0] + list(steps)
    assert coords.shape[0] == len(distances)
    return distances
#@ C12 matersdk/io/pwmat/input/inkpt.py Inkpt._split_distances_from_gamma_lst
def _split_distances_from_gamma_lst(self, atom_config_path):
    idx2hsp = self._get_idx2hsp()
    steps = self._get_distance_from_nbr(atom_config_path=atom_config_path)
    from_gamma = list(np.cumsum(np.array(steps)))
    keys = list(idx2hsp.keys())
    starts = [0]
    for i in range(1, len(keys)):
        if keys[i] - keys[i - 1] == 1:
            starts.append(keys[i])
    starts.append(len(steps))
    return [from_gamma[starts[i - 1]: starts[i]] for i in range(1, len(starts))]
#@ C12 matersdk/io/pwmat/input/inkpt.py Inkpt.get_distance_from_gamma_A
def get_distance_from_gamma_A(self, atom_config_path):
    out = []
    for i, part in enumerate(self._split_distances_from_gamma_lst(atom_config_path=atom_config_path)):
        if i == 0:
            shifted = part
        else:
            offset = out[-1]
            first = part[0]
            shifted = [d + offset - first for d in part]
        out.extend(shifted)
    return out
#@ C17 matersdk/feature/avg/avgbond.py AvgBond.get_avg_bond_length
@staticmethod
def get_avg_bond_length(struct_neigh, atomic_number_1, atomic_number_2):
    ans = struct_neigh.key_nbr_atomic_numbers
    center = np.repeat((ans[:, 0] == atomic_number_1)[:, np.newaxis], ans.shape[1], axis=1)
    mask = center & (ans == atomic_number_2)
    mask[:, 0] = False
    lengths = np.where(mask, struct_neigh.key_nbr_distances, 0)
    return np.sum(lengths) / np.count_nonzero(lengths)
#@ C17 matersdk/feature/avg/avgbond.py PairBond.get_frames_pair_bond
def get_frames_pair_bond(self):
    lengths = []
    for frame in self.frames_lst:
        coords = frame.cart_coords
        lengths.append(self._get_pair_bond_length(coords[self.atom1_idx], coords[self.atom2_idx]))
    return lengths
#@ C17 matersdk/feature/avg/avgbond.py PairBond.get_frames_pair_bond
def get_frames_pair_bond(self):
    return [np.linalg.norm(f.cart_coords[self.atom1_idx] - f.cart_coords[self.atom2_idx]) for f in self.frames_lst]
#@ C17 matersdk/feature/avg/msd.py Msd.calc_msd
def _pairs(self):
    return [[a, b] for a, b in zip(self.structures_lst[:-1], self.structures_lst[1:])]

def calc_msd(self):
    with mp.Pool(processes=max(1, os.cpu_count() - 2)) as pool:
        return pool.starmap(MsdParallelFunction.calc_msd_s, self._pairs())
#@ C17 matersdk/feature/avg/msd.py Msd.calc_msd
def calc_msd(self):
    num_workers = os.cpu_count() - 2
    if num_workers < 1:
        num_workers = 1
    pairs = []
    for i in range(len(self.structures_lst) - 1):
        pairs.append([self.structures_lst[i], self.structures_lst[i + 1]])
    with mp.Pool(processes=num_workers) as pool:
        values = pool.starmap(MsdParallelFunction.calc_msd_s, pairs)
    return values
#@ C17 matersdk/feature/avg/msd.py MsdParallelFunction.calc_msd_s
@staticmethod
def calc_msd_s(structure_1, structure_2):
    displacement = structure_2.cart_coords - structure_1.cart_coords
    return np.sum(displacement ** 2) / displacement.shape[0]
#@ C17 matersdk/feature/avg/msd.py MsdParallelFunction.calc_msd_sub_centroid_s
@staticmethod
def calc_msd_sub_centroid_s(structure_1, structure_2):
    c1 = structure_1.cart_coords - structure_1.get_centroid().reshape(1, 3)
    c2 = structure_2.cart_coords - structure_2.get_centroid().reshape(1, 3)
    d = c2 - c1
    return np.sum(np.power(d, 2)) / len(d)
#@ C17 matersdk/feature/avg/avgangle.py AvgAngle.get_avg_bond
@staticmethod
def get_avg_bond(struct_neigh, atomic_number_1, atomic_number_2, atomic_number_3):
    dp_feature = DpFeaturePairPremiseDescriptor.create('v1', structure_neighbors=struct_neigh)
    _, _, rc2 = dp_feature.extract_feature_pair(center_atomic_number=atomic_number_1, nbr_atomic_number=atomic_number_2)
    _, _, rc3 = dp_feature.extract_feature_pair(center_atomic_number=atomic_number_1, nbr_atomic_number=atomic_number_3)

    def get_angle(u, v):
        cos_value = np.dot(u, v) / (np.linalg.norm(u) * np.linalg.norm(v))
        return np.degrees(np.arccos(np.clip(cos_value, -1.0, 1.0)))

    def is_padding(v):
        return np.array_equal(v, np.zeros(3))
    angles = []
    same = atomic_number_2 == atomic_number_3
    for c in range(rc2.shape[0]):
        for i in range(rc2.shape[1]):
            start = i + 1 if same else 0
            for j in range(start, rc3.shape[1]):
                u, v = rc2[c, i, :], rc3[c, j, :]
                if is_padding(u) or is_padding(v):
                    continue
                a = get_angle(u, v)
                if a >= 0 or not same:
                    angles.append(a)
    angles = np.array(angles)
    result = 1 - 3 / 8 * np.sum(np.power(1 / 3 + np.cos(np.deg2rad(angles)), 2))
    return np.mean(angles), result
#@ C17 matersdk/feature/avg/avgbond.py AvgBond.get_frames_avg_bond
def get_frames_avg_bond(self, scaling_matrix=[3, 3, 3], reformat_mark=True, coords_are_cartesian=True):
    args = []
    for structure in self.frames_lst:
        args.append((structure, self.rcut, scaling_matrix, self.atomic_number_1, self.atomic_number_2))
    pool = mp.Pool(max(1, os.cpu_count() - 2))
    lengths = pool.starmap(ParallelFunction.get_avg_bond_length, args)
    pool.close()
    pool.join()
    return lengths
