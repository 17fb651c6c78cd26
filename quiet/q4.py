#@ C10 matersdk/feature/deepmd/preprocess.py TildeRNormalizer.normalize
def normalize(self, structure):
    tildeRs_dict, derivs_dict = self._normalize(structure=structure)
    rows, drows = [], []
    for c in self.center_atomic_numbers:
        keys = ['{0}_{1}'.format(c, n) for n in self.nbr_atomic_numbers]
        rows.append(np.concatenate([tildeRs_dict[k] for k in keys], axis=1))
        drows.append(np.concatenate([derivs_dict[k] for k in keys], axis=1))
    return np.concatenate(rows, axis=0), np.concatenate(drows, axis=0)
#@ C10 matersdk/feature/deepmd/preprocess.py TildeRNormalizer._normalize
def _normalize(self, structure):
    values = {}
    derivatives = {}
    struct_neigh = StructureNeighborsDescriptor.create('v1', structure=structure, rcut=self.rcut, scaling_matrix=self.scaling_matrix, reformat_mark=True, coords_are_cartesian=True)
    for i, center in enumerate(self.center_atomic_numbers):
        scaler = TildeRPairNormalizer(davg=self.davgs[i], dstd=self.dstds[i])
        for j, nbr in enumerate(self.nbr_atomic_numbers):
            width = self.max_num_nbrs[j]
            pair = DpseTildeRPairDescriptor.create('v1', structure_neighbors=struct_neigh, center_atomic_number=center, nbr_atomic_number=nbr, rcut=self.rcut, rcut_smooth=self.rcut_smooth)
            key = '{0}_{1}'.format(center, nbr)
            values[key] = scaler.normalize(tildeRs_array=pair.get_tildeR(max_num_nbrs=width))
            derivatives[key] = scaler.normalize_derivative(tildeR_derivatives_array=pair.calc_derivative(max_num_nbrs=width))
    return values, derivatives
#@ C10 matersdk/feature/deepmd/preprocess.py TildeRPairNormalizer._calc_std
def _calc_std(self, sum2_value, sum_value, N):
    if N == 0:
        return 0.01
    mean = sum_value / N
    std = np.sqrt(sum2_value / N - mean * mean)
    return 0.01 if np.abs(std) < 0.01 else std
#@ C10 matersdk/feature/deepmd/preprocess.py TildeRPairNormalizer.normalize
def normalize(self, tildeRs_array):
    ndim = len(tildeRs_array.shape)
    if ndim == 3:
        shape = (1, 1, 4)
    elif ndim == 4:
        shape = (1, 1, 1, 4)
    davg = self.davg.reshape(*shape)
    dstd = self.dstd.reshape(*shape)
    return (tildeRs_array - davg) / dstd
#@ C10 matersdk/feature/deepmd/preprocess.py TildeRPairNormalizer.calc_stats
def calc_stats(self, tildeRs_array):
    radius = tildeRs_array[:, 0].reshape(-1, 1)
    angles = tildeRs_array[:, 1:].reshape(-1, 3)
    n = radius.shape[0]
    s_r, s_a = np.sum(radius), np.sum(angles) / 3.0
    s2_r, s2_a = np.sum(radius * radius), np.sum(angles * angles) / 3.0
    std_r = self._calc_std(sum2_value=s2_r, sum_value=s_r, N=n)
    std_a = self._calc_std(sum2_value=s2_a, sum_value=s_a, N=n)
    davg = np.array([s_r / (n + 1e-15), 0, 0, 0]).reshape(-1, 4)
    dstd = np.array([std_r] + [std_a] * 3).reshape(-1, 4)
    return davg, dstd
#@ C10 matersdk/feature/deepmd/preprocess.py TildeRNormalizer.calc_stats
@staticmethod
def calc_stats(dp_labeled_system, structure_indices, rcut, rcut_smooth, center_atomic_numbers, nbr_atomic_numbers, max_num_nbrs, scaling_matrix):
    normalizers = []
    for center in center_atomic_numbers:
        tildeRs = NormalizerPremise.concat_tildeRs4calc_stats(dp_labeled_system=dp_labeled_system, structure_indices=structure_indices, rcut=rcut, rcut_smooth=rcut_smooth, center_atomic_number=center, nbr_atomic_numbers=nbr_atomic_numbers, max_num_nbrs=max_num_nbrs, scaling_matrix=scaling_matrix)
        normalizers.append(TildeRPairNormalizer(tildeRs_array=tildeRs))
    davgs = np.concatenate([n.davg for n in normalizers], axis=0)
    dstds = np.concatenate([n.dstd for n in normalizers], axis=0)
    return davgs, dstds
#@ C10 matersdk/feature/deepmd/preprocess.py TildeRNormalizer.to
def to(self, hdf5_file_path):
    with h5py.File(hdf5_file_path, 'w') as h5_file:
        h5_file.create_dataset('rcut', data=self.rcut)
        h5_file.create_dataset('rcut_smooth', data=self.rcut_smooth)
        h5_file.create_dataset('center_atomic_numbers', data=self.center_atomic_numbers)
        h5_file.create_dataset('nbr_atomic_numbers', data=self.nbr_atomic_numbers)
        h5_file.create_dataset('max_num_nbrs', data=self.max_num_nbrs)
        h5_file.create_dataset('scaling_matrix', data=np.array(self.scaling_matrix))
        h5_file.create_dataset('davgs', data=self.davgs)
        h5_file.create_dataset('dstds', data=self.dstds)
#@ C10 matersdk/feature/deepmd/preprocess.py TildeRNormalizer.to
def to(self, hdf5_file_path):
    h5_file = h5py.File(hdf5_file_path, 'w')
    for name in ('rcut', 'rcut_smooth', 'center_atomic_numbers', 'nbr_atomic_numbers', 'max_num_nbrs'):
        h5_file.create_dataset(name, data=getattr(self, name))
    h5_file.create_dataset('scaling_matrix', data=np.array(self.scaling_matrix))
    for name in ('davgs', 'dstds'):
        h5_file.create_dataset(name, data=getattr(self, name))
    h5_file.close()
#@ C10 matersdk/feature/deepmd/preprocess.py TildeRNormalizer.from_file
@classmethod
def from_file(cls, hdf5_file_path):
    with h5py.File(hdf5_file_path, 'r') as h5:
        names = ['rcut', 'rcut_smooth', 'center_atomic_numbers', 'nbr_atomic_numbers', 'max_num_nbrs', 'scaling_matrix', 'davgs', 'dstds']
        kwargs = {name: h5[name][()] for name in names}
    return cls(**kwargs)
#@ C10 matersdk/feature/deepmd/preprocess.py NormalizerPremise.concat_tildeRs4calc_stats
@staticmethod
def _one(structure, rcut, rcut_smooth, center_atomic_number, nbr_atomic_numbers, max_num_nbrs, scaling_matrix):
    nbr = StructureNeighborsDescriptor.create('v1', structure=structure, rcut=rcut, scaling_matrix=scaling_matrix, reformat_mark=True, coords_are_cartesian=True)
    parts = []
    for an, width in zip(nbr_atomic_numbers, max_num_nbrs):
        pair = DpseTildeRPairDescriptor.create('v1', structure_neighbors=nbr, center_atomic_number=center_atomic_number, nbr_atomic_number=an, rcut=rcut, rcut_smooth=rcut_smooth)
        parts.append(pair.get_tildeR(max_num_nbrs=width))
    return np.concatenate(parts, axis=1)

@staticmethod
def concat_tildeRs4calc_stats(dp_labeled_system, structure_indices, rcut, rcut_smooth, center_atomic_number, nbr_atomic_numbers, max_num_nbrs, scaling_matrix):
    out = []
    for idx in structure_indices:
        out.append(NormalizerPremise._one(dp_labeled_system.structures_lst[idx], rcut, rcut_smooth, center_atomic_number, nbr_atomic_numbers, max_num_nbrs, scaling_matrix))
    return np.concatenate(out, axis=1)
#@ C13 matersdk/io/pwmat/output/movement.py Movement.get_chunksize
def get_chunksize(self):
    row_idxs = LineLocator.locate_all_lines(file_path=self.movement_path, content='--------------------------------------')
    sizes = [row_idxs[0]]
    sizes += [b - a for a, b in zip(row_idxs[:-1], row_idxs[1:])]
    return sizes
#@ C13 matersdk/io/pwmat/output/movement.py Movement.get_chunksize
def get_chunksize(self):
    row_idxs = LineLocator.locate_all_lines(file_path=self.movement_path, content='--------------------------------------')
    sizes = []
    previous = 0
    for row in row_idxs:
        sizes.append(row - previous)
        previous = row
    return sizes
#@ C13 matersdk/io/pwmat/output/movement.py Movement.get_chunkslice
def get_chunkslice(self):
    return np.cumsum([0] + list(self.chunksizes_lst))
#@ C13 matersdk/io/pwmat/output/movement.py Movement._get_frame_str
def _get_frame_str(self, idx_frame):
    start, stop = self.chunkslices_lst[idx_frame], self.chunkslices_lst[idx_frame + 1]
    rows = []
    with open(self.movement_path, 'r') as mvt:
        for idx_line, line in enumerate(mvt):
            if idx_line >= stop:
                break
            if idx_line >= start:
                rows.append(line)
    return ''.join(rows)
#@ C13 matersdk/io/pwmat/output/movement.py Movement._get_frame_str
def _get_frame_str(self, idx_frame):
    with open(self.movement_path, 'r') as mvt:
        lines = mvt.readlines()
    return ''.join(lines[self.chunkslices_lst[idx_frame]: self.chunkslices_lst[idx_frame + 1]])
#@ C13 matersdk/io/pwmat/output/movement.py Movement.get_frame_energy
@staticmethod
def _parse_energy(first_row):
    words = first_row.split()
    idx = ListLocator.locate_all_lines(strs_lst=words, content='=')[1]
    kinetic = words[idx + 3].strip()
    if kinetic[-1] == ',':
        kinetic = kinetic[:-1]
    return float(words[idx + 1].strip()), float(words[idx + 2].strip()), float(kinetic)

def get_frame_energy(self, idx_frame):
    frame_str = self._get_frame_str(idx_frame=idx_frame)
    return self._parse_energy(frame_str.split('\n')[0])
#@ C13 matersdk/io/pwmat/output/movement.py Movement.get_frame_virial
def get_frame_virial(self, idx_frame):
    rows_lst = self._get_frame_str(idx_frame=idx_frame).split('\n')
    aim_idx = ListLocator.locate_all_lines(strs_lst=rows_lst, content='LATTICE VECTOR')[0]
    if len(rows_lst[aim_idx + 1].split()) == 3:
        return np.zeros((3, 3))
    tensor = []
    for i in range(1, 4):
        tensor.append(np.array([float(v.strip()) for v in rows_lst[aim_idx + i].split()[-3:]]))
    return np.vstack(tensor)
#@ C13 matersdk/io/pwmat/output/movement.py Movement.get_frame_virial
def get_frame_virial(self, idx_frame):
    rows_lst = self._get_frame_str(idx_frame=idx_frame).split('\n')
    aim_idx = ListLocator.locate_all_lines(strs_lst=rows_lst, content='LATTICE VECTOR')[0]
    has_virial = len(rows_lst[aim_idx + 1].split()) != 3
    if not has_virial:
        return np.zeros((3, 3))
    return np.array([[float(v) for v in rows_lst[aim_idx + i].split()[-3:]] for i in (1, 2, 3)])
#@ C13 matersdk/io/pwmat/output/movement.py Movement.get_all_frame_structures
def _chunks(self):
    chunks = []
    with open(self.movement_path, 'r') as mvt:
        for size in self.chunksizes_lst:
            chunk = ''
            for _ in range(size):
                chunk += mvt.readline()
            chunks.append(chunk)
    return chunks

def get_all_frame_structures(self):
    return [DStructure.from_str(str_content=c, str_format='pwmat') for c in self._chunks()]
#@ C14 matersdk/io/pwmat/output/dostotalspin.py Dostotalspin._preprocess
def _preprocess(self):
    with open(self.dos_totalspin_path, 'r') as f:
        lines_lst = f.readlines()
    names = lines_lst[0].split()
    if '#' in names:
        names.remove('#')
    lines_lst[0] = '\t   '.join(names) + '\n'
    folder_path, filename = os.path.split(self.dos_totalspin_path)
    bak_dosfile_path = os.path.join(folder_path, filename + '.bak')
    with open(bak_dosfile_path, 'w') as f:
        f.writelines(lines_lst)
    return bak_dosfile_path
#@ C14 matersdk/io/pwmat/output/dostotalspin.py Dostotalspin._preprocess
def _preprocess(self):
    with open(self.dos_totalspin_path, 'r') as f:
        lines_lst = f.readlines()
    first_line_lst = lines_lst[0].split()
    try:
        first_line_lst.remove('#')
    except ValueError:
        pass
    header = '\t   '.join(first_line_lst) + '\n'
    folder_path = os.path.dirname(self.dos_totalspin_path)
    filename = os.path.basename(self.dos_totalspin_path)
    bak_dosfile_path = os.path.join(folder_path, f'{filename}.bak')
    with open(bak_dosfile_path, 'w') as f:
        f.write(header)
        for line in lines_lst[1:]:
            f.write(line)
    return bak_dosfile_path
#@ C14 matersdk/io/pwmat/output/dostotalspin.py Dostotalspin.get_pdos_elements
def get_pdos_elements(self):
    df_dos = pd.read_csv(self.bak_dosfile_path, delimiter='\\s+')
    elements = list(dict.fromkeys([c.split('-')[0] for c in df_dos.columns.to_list()[2:]]))
    series = [df_dos.loc[:, 'Energy']]
    for element in elements:
        mask = [c.split('-')[0] == element for c in df_dos.columns]
        series.append(df_dos.loc[:, mask].sum(axis=1))
    result = pd.concat(series, axis=1)
    result.columns = ['Energy'] + elements
    return result
#@ C14 matersdk/io/pwmat/output/dostotalspin.py Dostotalspin.get_tdos
def _read(self):
    return pd.read_csv(self.bak_dosfile_path, delimiter='\\s+')

def get_tdos(self):
    df_dos = self._read()
    try:
        return df_dos.loc[:, ['Energy', 'Total']]
    except KeyError:
        return df_dos.loc[:, ['Energy', 'total']]
#@ C14 matersdk/io/pwmat/output/fatabandstructureTxt.py FatbandStructure._get_elements_lst
def _get_elements_lst(self):
    columns = [c for c in self._preprocess().columns if c not in ('KPOINT', 'ENERGY', 'weight_tot')]
    return list(dict.fromkeys([c.split('-')[0] for c in columns]))
#@ C14 matersdk/io/pwmat/output/fatabandstructureTxt.py FatbandStructure._preprocess
def _preprocess(self):
    with open(self.fatbandstructure_txt_path, 'r') as f:
        kept = [line for line in f if line != '' and 'BAND' not in line]
    ss = StringIO(''.join(kept))
    df = pd.read_csv(ss, delimiter='\\s+')
    df.loc[:, 'KPOINT'] = df.loc[:, 'KPOINT'] / self.BOHR
    return df
#@ C14 matersdk/io/pwmat/output/fatabandstructureTxt.py FatbandStructure._preprocess
def _preprocess(self):
    ss = StringIO()
    with open(self.fatbandstructure_txt_path, 'r') as f:
        for line in f:
            if line != '' and 'BAND' not in line:
                ss.write(line)
    ss.seek(0)
    df = pd.read_csv(ss, delimiter='\\s+')
    df['KPOINT'] = df['KPOINT'] / self.BOHR
    return df
#@ C14 matersdk/io/pwmat/output/fatabandstructureTxt.py FatbandStructure.get_element_dfs_lst
def get_element_dfs_lst(self):
    df = self._preprocess()
    head = ['KPOINT', 'ENERGY', 'weight_tot']
    parts = [df.loc[:, head]]
    for element in self.elements_lst:
        parts.append(df.filter(regex='^{0}-|KPOINT|ENERGY|weight_tot'.format(element)).filter(regex='^{0}-'.format(element)).sum(axis=1))
    merged = pd.concat(parts, axis=1)
    merged.columns = head + self.elements_lst
    return np.array_split(merged, self.num_bands)
#@ C14 matersdk/io/pwmat/output/fatabandstructureTxt.py FatbandStructure.get_element_dfs_lst
def get_element_dfs_lst(self):
    df = self._preprocess()
    series = [df.filter(regex='^{0}-'.format(e)).sum(axis=1) for e in self.elements_lst]
    new_df = pd.concat([df.loc[:, ['KPOINT', 'ENERGY', 'weight_tot']]] + series, axis=1)
    new_df.columns = ['KPOINT', 'ENERGY', 'weight_tot'] + self.elements_lst
    return np.array_split(new_df, self.num_bands)
#@ C14 matersdk/io/pwmat/output/fatabandstructureTxt.py FatbandStructure._get_num_kpoints
def _get_num_kpoints(self):
    marks = self._get_BAND_mark_idxs()
    first, second = marks[0], marks[1]
    return second - first - 2
#@ C15 matersdk/calculation/kpath/kpathSampler.py KpathSampler.output_HIGHK_file
def output_HIGHK_file(self):
    if os.path.exists(self.HIGHK_file_path):
        os.remove(self.HIGHK_file_path)
    with open(self.HIGHK_file_path, 'a') as f:
        f.write('High symmetry kpoints generated by MaterSDK, structure:{0}, fractional coordinates in reciprocal lattice\n'.format(self.structure.formula))
        for name, coord in self.kpoints.items():
            f.write('    {0:>12.6f}\t{1:>12.6f}\t{2:>12.6f}\t{3}\n'.format(coord[0], coord[1], coord[2], name))
#@ C15 matersdk/calculation/kpath/kpathSampler.py KpathSampler.output_HIGHK_file
def output_HIGHK_file(self):
    lines = ['High symmetry kpoints generated by MaterSDK, structure:{0}, fractional coordinates in reciprocal lattice\n'.format(self.structure.formula)]
    for name in self.kpoints.keys():
        x, y, z = self.kpoints[name][0], self.kpoints[name][1], self.kpoints[name][2]
        lines.append(f'    {x:>12.6f}\t{y:>12.6f}\t{z:>12.6f}\t{name}\n')
    with open(self.HIGHK_file_path, 'w') as f:
        f.writelines(lines)
#@ C15 matersdk/calculation/kpath/kpathSampler.py KpathSampler.output_gen_kpt
def _row(self, position, name):
    return '    {0:>12.6f}\t{1:>12.6f}\t{2:>12.6f}\t{3}\n'.format(position[0], position[1], position[2], name)

def output_gen_kpt(self, density=0.01):
    if os.path.exists(self.gen_kpt_path):
        os.remove(self.gen_kpt_path)
    recip = self.structure.lattice.reciprocal_lattice_crystallographic.matrix
    with open(self.gen_kpt_path, 'a') as f:
        f.write('K-path generated by MaterSDK, structure:{0}, density:{1}, fractional coordinates in reciprocal lattice\n'.format(self.structure.formula, density))
        for path in self.kpaths:
            for i in range(1, len(path)):
                start = self.kpoints[path[i - 1]]
                dest = self.kpoints[path[i]]
                length = np.linalg.norm(np.dot(np.array(dest) - np.array(start), recip))
                f.write('{0}\n'.format(int(np.ceil(length / density))))
                f.write(self._row(start, path[i - 1]))
                f.write(self._row(dest, path[i]))
#@ C15 matersdk/calculation/kpath/kpathSampler.py KpathSampler._get_kpoints
def _get_kpoints(self):
    kpoint2coord = self.kpath['kpoints']
    try:
        kpoint2coord.update({'G': kpoint2coord.pop('\\Gamma')})
    except:
        pass
    if self.dimension == 3:
        return kpoint2coord
    if self.dimension == 2:
        return {name: coord for name, coord in kpoint2coord.items() if coord[-1] == 0}
    raise Exception('The dimension of material must be 2 or 3!')
#@ C15 matersdk/calculation/kpath/kpathSampler.py KpathSampler._get_kpaths
def _get_kpaths(self):
    renamed = [['G' if p == '\\Gamma' else p for p in path] for path in self.kpath['path']]
    if self.dimension == 3:
        return renamed
    if self.dimension != 2:
        raise Exception('The dimension of material must be 2 or 3!')
    kept = [[p for p in path if p in self.kpoints.keys()] for path in renamed]
    return [path for path in kept if len(path) > 1]
#@ C15 matersdk/calculation/kpoints/kmesh.py KMesh.get_kmesh
def get_kmesh(self, density):
    if density == 0:
        return np.array([1, 1, 1])
    vectors = self.structure.lattice.reciprocal_lattice.matrix
    lengths = np.sqrt(np.sum(vectors ** 2, axis=1))
    kmesh = np.round(lengths / (density * 2 * np.pi))
    vacuum = self.structure.judge_vacuum_exist()
    for i in range(3):
        if vacuum[i]:
            kmesh[i] = 1
        if kmesh[i] == 0:
            kmesh[i] = 1
    return kmesh
#@ C15 matersdk/calculation/kpoints/kmesh.py KMesh.get_kmesh
def get_kmesh(self, density):
    if density == 0:
        return np.array([1, 1, 1])
    lengths = np.linalg.norm(self.structure.lattice.reciprocal_lattice.matrix, axis=1)
    kmesh = np.round(lengths / (2 * np.pi * density))
    vacuum = self.structure.judge_vacuum_exist()
    for i in range(3):
        if vacuum[i] or kmesh[i] == 0:
            kmesh[i] = 1
    return kmesh
#@ C16 matersdk/io/pwmat/input/gen_vext.py GenVext.to
def to(self, output_path):
    center = ' '.join(map(str, self.vr_center))
    detail = ' '.join(map(str, self.as_param_lst))
    flag = 'T' if self.add_vr else 'F'
    with open(output_path, 'w') as f:
        f.write(f'VR_CENTER = {center}\nVR_TYPE = {self.vr_type}\nVR_DETAIL = {detail}\nADD_VR = {flag}\n')
#@ C16 matersdk/io/pwmat/input/gen_vext.py GenVext.to
def to(self, output_path):
    lines = []
    lines.append('VR_CENTER = ' + ' '.join([str(v) for v in self.vr_center]))
    lines.append('VR_TYPE = %s' % self.vr_type)
    lines.append('VR_DETAIL = ' + ' '.join([str(v) for v in self.as_param_lst]))
    lines.append('ADD_VR = ' + ('T' if self.add_vr else 'F'))
    with open(output_path, 'w') as f:
        f.write('\n'.join(lines) + '\n')
#@ C16 matersdk/hpc/slurm/job.py Job.to
def to(self, filename):
    directives = [
        ('partition', self.partition), ('job-name', self.name), ('nodes', self.num_nodes),
        ('ntasks-per-node', self.num_tasks_per_node), ('threads-per-core', self.num_threads_per_core)]
    with open(os.path.join(os.getcwd(), filename), 'w') as f:
        f.write('#!/bin/bash\n')
        for key, value in directives:
            f.write('#SBATCH --{0}={1}\n'.format(key, value))
        f.write('#SBATCH --gres=gpu:{0}\n'.format(self.num_gpus))
        f.write('#SBATCH --gpus-per-task={0}\n'.format(self.num_gpus_per_task))
        f.write('\n\n\n{0}'.format(self.command))
#@ C16 matersdk/io/pwmat/input/dos_input.py DosInput.to
def to(self, output_path):
    lines = [
        '{0}  # 设置为0，则绘制所有原子的DOS；设置为1，则绘制部分原子的DOS，需要在atom.config文件POSITION部分的第8列设置原子权重\n'.format(self.mark_atoms),
        '{0}  # 设置为1，绘制DOS时使用插值；设置为0，使用高斯展宽(Gaussian broadening)，不做插值\n'.format(self.mark_method),
        '{0:<.5f}  {1:<10d} # 做插值的imsearing energy (单位：eV); 能量网格点数，默认为4000\n'.format(self.ismear, self.num_energies),
        '{0}  # NM1,NM2,NM3 插值的格子密度，每个格子包含在NQ1, NQ2, NQ3中\n'.format(' '.join(str(v) for v in self.grid_interp)),
        '0  # 只对TDDFT DOS绘制有用',
    ]
    with open(output_path, 'w') as f:
        f.writelines(lines)
