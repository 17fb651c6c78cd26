#@ C03 matersdk/io/pwmat/utils/mvextractor.py MVExtractor.get_chunkslices
def get_chunkslices(self):
    return np.cumsum([0] + list(self.chunksizes))
#@ C03 matersdk/io/pwmat/utils/mvextractor.py MVExtractor.get_chunkslices
def get_chunkslices(self):
    return np.concatenate([[0], np.cumsum(self.chunksizes)])
#@ C03 matersdk/io/pwmat/utils/mvextractor.py MVExtractor.get_frame_str
def get_frame_str(self, fidx):
    start, stop = self.chunkslices[fidx], self.chunkslices[fidx + 1]
    picked = []
    with open(self.mv_path, 'r') as mv:
        for idx_line, line in enumerate(mv):
            if idx_line >= stop:
                break
            if idx_line >= start:
                picked.append(line)
    return "".join(picked)
#@ C03 matersdk/io/pwmat/utils/mvextractor.py MVExtractor.get_frame_str
def get_frame_str(self, fidx):
    start = self.chunkslices[fidx]
    stop = self.chunkslices[fidx + 1]
    with open(self.mv_path, 'r') as mv:
        return "".join(line for i, line in enumerate(mv) if start <= i < stop)
#@ C03 matersdk/io/pwmat/utils/mvextractor.py MVExtractor.get_frame_str
def get_frame_str(self, fidx):
    with open(self.mv_path, 'r') as mv:
        lines = mv.readlines()
    return "".join(lines[self.chunkslices[fidx]:self.chunkslices[fidx + 1]])
#@ C03 matersdk/io/pwmat/utils/mvextractor.py MVExtractor.get_frame_info
def get_frame_info(self, fidx: int):
    ex = ACstrExtractor(atom_config_str=self.get_frame_str(fidx=fidx))
    infos = [ex.get_basis_vectors(), ex.get_types(), ex.get_coords(), ex.get_etot(), ex.get_fatoms()]
    optional = [(self.virial_mark, ex.get_virial), (self.eatoms_mark, ex.get_eatoms), (self.magmoms_mark, ex.get_magmoms)]
    for mark, getter in optional:
        if mark:
            infos.append(getter())
    return infos
#@ C03 matersdk/io/pwmat/utils/mvextractor.py MVExtractor.get_info_labels
def get_info_labels(self):
    labels = ['box', 'types', 'coords', 'etot', 'fatoms']
    extras = [('virial', self.virial_mark), ('eatoms', self.eatoms_mark), ('magmoms', self.magmoms_mark)]
    return labels + [name for name, mark in extras if mark]
#@ C03 matersdk/io/pwmat/utils/mvextractor.py MVExtractor._find_extra_properties
def _find_extra_properties(self):
    ac_str_extractor = ACstrExtractor(atom_config_str=self.get_frame_str(fidx=0))
    marks = []
    for getter in (ac_str_extractor.get_virial, ac_str_extractor.get_eatoms, ac_str_extractor.get_magmoms):
        try:
            getter()
            marks.append(True)
        except AttributeError:
            marks.append(False)
    return marks
#@ C03 matersdk/io/pwmat/utils/mvextractor.py MVExtractor.get_frames_info
def get_frames_info(self):
    columns = {"box": [], "types": [], "coord": [], "energy": [], "force": []}
    virial, eatoms, magmoms = [], [], []
    with open(self.mv_path, 'r') as mvt:
        for size in self.chunksizes:
            chunk = "".join([mvt.readline() for _ in range(size)])
            ex = ACstrExtractor(atom_config_str=chunk)
            columns["box"].append(ex.get_basis_vectors())
            columns["types"].append(ex.get_types())
            columns["coord"].append(ex.get_coords())
            columns["energy"].append(ex.get_etot())
            columns["force"].append(ex.get_fatoms())
            if self.virial_mark:
                virial.append(ex.get_virial())
            if self.eatoms_mark:
                eatoms.append(ex.get_eatoms())
            if self.magmoms_mark:
                magmoms.append(ex.get_magmoms())
    info = [np.array(columns[k]) for k in ("box", "types", "coord", "energy", "force")]
    for mark, lst in ((self.virial_mark, virial), (self.eatoms_mark, eatoms), (self.magmoms_mark, magmoms)):
        if mark:
            info.append(np.array(lst))
    return info
#@ C08 matersdk/io/publicLayer/neigh.py StructureNeighborsUtils.get_max_num_nbrs_real
@staticmethod
def get_max_num_nbrs_real(structure, rcut, scaling_matrix, coords_are_cartesian=True):
    key_idxs = structure.get_key_idxs(scaling_matrix=scaling_matrix)
    supercell = structure.make_supercell_(scaling_matrix=scaling_matrix, reformat_mark=True)
    coords = supercell.cart_coords if coords_are_cartesian else supercell.frac_coords
    best = 0
    for c in key_idxs:
        d = np.linalg.norm(coords - coords[c].reshape(1, 3), axis=1)
        best = max(best, np.count_nonzero(d <= rcut))
    return best - 1
#@ C08 matersdk/io/publicLayer/neigh.py StructureNeighborsUtils.get_max_num_nbrs_real
@staticmethod
def get_max_num_nbrs_real(structure, rcut, scaling_matrix, coords_are_cartesian=True):
    key_idxs = structure.get_key_idxs(scaling_matrix=scaling_matrix)
    supercell = structure.make_supercell_(scaling_matrix=scaling_matrix, reformat_mark=True)
    coords = supercell.cart_coords if coords_are_cartesian else supercell.frac_coords
    counts = []
    for c in key_idxs:
        d = np.linalg.norm(coords - coords[c].reshape(1, 3), axis=1)
        counts.append(np.sum(d <= rcut))
    return max(counts, default=0) - 1
#@ C08 matersdk/io/publicLayer/neigh.py StructureNeighborsUtils.get_nbrs_indices
@staticmethod
def get_nbrs_indices(struct_nbr, center_atomic_numbers, nbr_atomic_numbers, max_num_nbrs=False):
    rows = []
    for c in center_atomic_numbers:
        blocks = [StructureNeighborsUtils._get_nbrs_indices(struct_nbr, c, n, w) for n, w in zip(nbr_atomic_numbers, max_num_nbrs)]
        rows.append(np.concatenate(blocks, axis=1))
    return np.concatenate(rows, axis=0)
#@ C08 matersdk/io/publicLayer/neigh.py StructureNeighborsV1._get_key_neighs_info
def _get_key_neighs_info(self, scaling_matrix, rcut, coords_are_cartesian):
    key_idxs = self.structure.get_key_idxs(scaling_matrix=scaling_matrix)
    zs = np.array([s.specie.Z for s in self.supercell.sites])
    coords = self.supercell.cart_coords if coords_are_cartesian else self.supercell.frac_coords
    n, m = len(key_idxs), zs.shape[0]
    out_z = np.zeros((n, m))
    out_d = np.zeros((n, m))
    out_x = np.zeros((n, m, 3))
    width = 0
    for i, c in enumerate(key_idxs):
        d = np.linalg.norm(coords - coords[c].reshape(1, 3), axis=1)
        k = np.count_nonzero(d <= rcut)
        width = max(width, k)
        order = np.argsort(d)[:k]
        out_z[i, :k] = zs[order]
        out_d[i, :k] = d[order]
        out_x[i, :k, :] = coords[order, :]
    return out_z[:, :width], out_d[:, :width], out_x[:, :width, :]
