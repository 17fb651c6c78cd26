#@ C02 matersdk/io/pwmat/utils/acextractor.py ACExtractor.get_basis_vectors
def get_basis_vectors(self):
    idx_row = LineLocator.locate_all_lines(file_path=self.atom_config_path, content="LATTICE")[0]
    rows = [linecache.getline(self.atom_config_path, idx_row + k).split()[:3] for k in range(1, 4)]
    return np.array([float(v) for row in rows for v in row])
#@ C02 matersdk/io/pwmat/utils/acextractor.py ACExtractor.get_types
def _position_rows(self):
    idx_row = LineLocator.locate_all_lines(file_path=self.atom_config_path, content="POSITION")[0]
    with open(self.atom_config_path, "r") as f:
        lines = f.readlines()
    return lines[idx_row: idx_row + self.num_atoms]

def get_types(self):
    return np.array([int(row.split()[0]) for row in self._position_rows()])
#@ C02 matersdk/io/pwmat/utils/acextractor.py ACExtractor.get_coords
def get_coords(self):
    start = LineLocator.locate_all_lines(file_path=self.atom_config_path, content="POSITION")[0]
    coords = []
    with open(self.atom_config_path, "r") as f:
        content = f.readlines()
    for i in range(self.num_atoms):
        fields = content[start + i].split()
        coords.append([float(fields[1]), float(fields[2]), float(fields[3])])
    return np.array(coords).flatten()
#@ C02 matersdk/io/pwmat/utils/acextractor.py ACExtractor.get_coords
def get_coords(self):
    start = LineLocator.locate_all_lines(file_path=self.atom_config_path, content="POSITION")[0]
    with open(self.atom_config_path, "r") as f:
        content = f.readlines()
    flat = []
    for row in content[start: start + self.num_atoms]:
        flat.extend(float(v) for v in row.split()[1:4])
    return np.array(flat)
#@ C02 matersdk/io/pwmat/utils/acextractor.py ACstrExtractor.get_coords
def get_coords(self):
    aim_idx = ListLocator.locate_all_lines(strs_lst=self.strs_lst, content="POSITION")[0]
    first = aim_idx + 1
    last = first + self.num_atoms
    coords_lst = [list(map(float, s.split()[1:4])) for s in self.strs_lst[first:last]]
    return np.array(coords_lst).reshape(-1)
#@ C02 matersdk/io/pwmat/utils/acextractor.py ACstrExtractor.get_eatoms
def _rows_after(self, content):
    aim_idx = ListLocator.locate_all_lines(strs_lst=self.strs_lst, content=content)[0]
    return self.strs_lst[aim_idx + 1: aim_idx + self.num_atoms + 1]

def get_eatoms(self):
    try:
        return np.array([float(row.split()[1]) for row in self._rows_after("ATOMIC-ENERGY, ")])
    except:
        raise AttributeError("ACExtractorError: No atomic energy info in MOVMENT.")
#@ C02 matersdk/io/pwmat/utils/acextractor.py ACstrExtractor.get_virial
def get_virial(self):
    aim_idx = ListLocator.locate_all_lines(strs_lst=self.strs_lst, content="LATTICE")[0]
    rows = [self.strs_lst[aim_idx + k].split() for k in (1, 2, 3)]
    for row in rows:
        if not ListLocator.locate_all_lines(strs_lst=row, content="STRESS"):
            raise AttributeError("ACstrExtractorError: No virial info in MOVEMENT.")
    virial_tensor = []
    for row in rows:
        for value in row[-3:]:
            virial_tensor.append(float(value))
    return np.array(virial_tensor)
#@ C02 matersdk/io/pwmat/utils/acextractor.py ACstrExtractor.get_etot
def get_etot(self):
    fields = self.strs_lst[0].split(',')
    hit = ListLocator.locate_all_lines(strs_lst=fields, content='EK (EV) =')[0]
    words = fields[hit].split()
    etot = float(words[3])
    return np.array([etot])
#@ C02 matersdk/io/pwmat/utils/acextractor.py ACstrExtractor.get_fatoms
def get_fatoms(self):
    try:
        aim_idx = ListLocator.locate_all_lines(strs_lst=self.strs_lst, content="FORCE")[0]
        forces_lst = []
        for offset in range(1, self.num_atoms + 1):
            parts = self.strs_lst[aim_idx + offset].split()
            forces_lst.append([float(value) for value in parts[1:4]])
        return np.array(forces_lst).reshape(-1)
    except Exception:
        return np.zeros(self.num_atoms * 3)
#@ C02 matersdk/io/pwmat/utils/acextractor.py ACstrExtractor.get_num_atoms
def get_num_atoms(self):
    return int(re.search(r"(\d+) atoms", self.atom_config_str, re.I).group(1))
#@ C02 matersdk/io/pwmat/utils/acextractor.py ACExtractor.get_num_atoms
def get_num_atoms(self):
    return int(linecache.getline(self.atom_config_path, 1).split()[0])
#@ C04 matersdk/io/publicLayer/structure.py DStructure.from_file
@classmethod
def from_file(cls, file_path, file_format, sort=False):
    if file_format == "pwmat":
        ex = ACExtractor(file_path=file_path)
        lattice = ex.basis_vectors.reshape(3, 3)
        species = ex.types.flatten()
        coords = ex.coords.reshape(-1, 3)
        structure = Structure(lattice=lattice, species=species, coords=coords, coords_are_cartesian=False)
    else:
        structure = Structure.from_file(filename=file_path)
    structure.__class__ = cls
    return structure
#@ C04 matersdk/io/publicLayer/structure.py DStructure.to
def to(self, file_path, file_format, include_magnetic_moments=False):
    if file_format != "pwmat":
        super(DStructure, self).to(fmt=file_format, filename=file_path)
        return
    numbers = [specie2atomic_number[str(s)] for s in self.species]
    with open(file_path, "w") as f:
        f.write("  {0} atoms\n".format(self.num_sites))
        f.write("Lattice vector (Angstrom)\n")
        for row in range(3):
            f.write("   {0:<14E}    {1:<14E}    {2:<14E}\n".format(self.lattice.matrix[row, 0], self.lattice.matrix[row, 1], self.lattice.matrix[row, 2]))
        f.write("Position (normalized), move_x, move_y, move_z\n")
        for i in range(self.num_sites):
            x, y, z = self.frac_coords[i, 0], self.frac_coords[i, 1], self.frac_coords[i, 2]
            f.write("  {0:<2d}         {1:<10f}         {2:<10f}         {3:<10f}     1  1  1\n".format(specie2atomic_number[str(self.species[i])], x, y, z))
        if include_magnetic_moments:
            f.write("Magnetic\n")
            for i in range(self.num_sites):
                f.write("  {0:<3d} {1:<.2f}\n".format(specie2atomic_number[str(self.species[i])], self.site_properties["magmom"][i]))
#@ C05 matersdk/data/infoset.py InfoSet.to_dir
def to_dir(self, dir_path, part_size=False):
    if part_size is False:
        part_size = self.num_frames
    num_parts = self.num_frames // part_size + 1
    out_dir = os.path.join(dir_path, self.formula)
    if os.path.exists(out_dir):
        warnings.warn("This dir exists: ")
    os.mkdir(out_dir)
    with open(os.path.join(out_dir, "type_map.raw"), "w") as f:
        for tmp_element in self.formula_dict:
            f.write(tmp_element + "\n")
    for part_rank in range(num_parts):
        start = part_rank * part_size
        end = min(start + part_size, self.num_frames)
        if end == start:
            break
        part_dir = os.path.join(out_dir, "part.{0:0>3}".format(part_rank))
        if os.path.exists(part_dir):
            warnings.warn("This dir contains part.{0:0>3}".format(part_rank))
        os.mkdir(part_dir)
        for name, arr in (("box.npy", self.box), ("types.npy", self.types), ("coord.npy", self.coord), ("etot.npy", self.etot), ("fatom.npy", self.fatom)):
            np.save(file=os.path.join(part_dir, name), arr=arr[start:end, :])
        if self.virial_mark:
            np.save(file=os.path.join(part_dir, "virial.npy"), arr=self.virial[start:end, :])
        if self.eatom_mark:
            np.save(file=os.path.join(part_dir, "eatom.npy"), arr=self.eatom[start:end, :])
        if self.magmom_mark:
            np.save(file=os.path.join(part_dir, "magmoms"), arr=self.magmom[start:end, :])
#@ C05 matersdk/data/infoset.py InfoSet.to_dir
def _save_part(self, part_dir, start, end):
    np.save(file=os.path.join(part_dir, "box.npy"), arr=self.box[start:end])
    np.save(file=os.path.join(part_dir, "types.npy"), arr=self.types[start:end])
    np.save(file=os.path.join(part_dir, "coord.npy"), arr=self.coord[start:end])
    np.save(file=os.path.join(part_dir, "etot.npy"), arr=self.etot[start:end])
    np.save(file=os.path.join(part_dir, "fatom.npy"), arr=self.fatom[start:end])
    optional = [(self.virial_mark, "virial.npy", self.virial), (self.eatom_mark, "eatom.npy", self.eatom), (self.magmom_mark, "magmoms", self.magmom)]
    for mark, name, arr in optional:
        if mark:
            np.save(file=os.path.join(part_dir, name), arr=arr[start:end])

def to_dir(self, dir_path, part_size=False):
    if part_size is False:
        num_parts, part_size = 1, self.num_frames
    else:
        num_parts = self.num_frames // part_size + 1
    out_dir = os.path.join(dir_path, self.formula)
    if os.path.exists(out_dir):
        warnings.warn("This dir exists: ")
    os.mkdir(out_dir)
    with open(os.path.join(out_dir, "type_map.raw"), "w") as f:
        f.writelines(e + "\n" for e in self.formula_dict.keys())
    for part_rank in range(num_parts):
        start = part_rank * part_size
        end = self.num_frames if part_rank == num_parts - 1 else start + part_size
        if end == start:
            break
        part_dir = os.path.join(out_dir, f"part.{part_rank:0>3}")
        if os.path.exists(part_dir):
            warnings.warn(f"This dir contains part.{part_rank:0>3}")
        os.mkdir(part_dir)
        self._save_part(part_dir, start, end)
#@ C06 matersdk/data/infoset.py InfoSet.__init__
def __init__(self, box, types, coord, etot, fatom, formula_dict, formula, num_frames, virial=False, eatom=False, magmom=False):
    self.box, self.types, self.coord = box, types, coord
    self.etot, self.fatom = etot, fatom
    self.virial_mark = virial is not False
    self.virial = virial
    self.eatom_mark = eatom is not False
    self.eatom = eatom
    self.magmom_mark = magmom is not False
    self.magmom = magmom
    self.formula_dict = formula_dict
    self.formula = formula
    self.num_frames = num_frames
#@ C06 matersdk/data/infoset.py InfoSet.from_file
@classmethod
def from_file(cls, file_path, file_format, infosets_atomic_numbers=False):
    if file_format.upper() != "PWMAT/MOVEMENT":
        raise NameError("InfoSetError : No implementation for format of {0}".format(file_format))
    traj_extractor = MVExtractor(movement_path=file_path)
    virial_mark, eatom_mark, magmom_mark = traj_extractor._find_extra_properties()
    frames_info = traj_extractor.get_frames_info()
    box, types, coord, etot, fatoms = frames_info[:5]
    parameters = {}
    pos = 5
    if virial_mark:
        parameters["virial"] = frames_info[pos]
        pos += 1
    if eatom_mark:
        parameters["eatom"] = frames_info[pos]
        pos += 1
    if magmom_mark:
        parameters["magmom"] = frames_info[pos]
    num_frames = frames_info[0].shape[0]
    formula_dict = {}
    if infosets_atomic_numbers is False:
        kinds, counts = np.unique(types[0], return_counts=True)
        for tmp_type, tmp_count in zip(kinds, counts):
            formula_dict[atomic_number2specie[tmp_type]] = tmp_count
        infosets_atomic_numbers = [specie2atomic_number[e] for e in formula_dict]
    else:
        for tmp_an in infosets_atomic_numbers:
            formula_dict[atomic_number2specie[tmp_an]] = 0
        for tmp_an in infosets_atomic_numbers:
            for z in types[0]:
                if z == tmp_an:
                    formula_dict[atomic_number2specie[tmp_an]] += 1
    formula = "".join("{0}{1}".format(k, v) for k, v in formula_dict.items())
    types = np.array([np.array([infosets_atomic_numbers.index(z) for z in types[i]]) for i in range(num_frames)])
    return cls(box=box, types=types, coord=coord, etot=etot, fatom=fatoms, formula_dict=formula_dict, formula=formula, num_frames=num_frames, **parameters)
#@ C06 matersdk/data/infosets.py InfoSets.get_num_frames
def get_num_frames(self):
    return sum(s.num_frames for s in self.infoset_lst)
#@ C06 matersdk/data/infosets.py InfoSets.from_dir
@classmethod
def from_dir(cls, dir_path, file_name, file_format):
    wanted = file_name.upper()
    file_paths_lst = [os.path.join(root, f) for root, dirs, files in os.walk(dir_path) for f in files if f.upper() == wanted]
    infosets_atomic_numbers = []
    for path in file_paths_lst:
        first = InfoSet.from_file(file_path=path, file_format=file_format)
        for element in first.formula_dict:
            number = specie2atomic_number[element]
            if number not in infosets_atomic_numbers:
                infosets_atomic_numbers.append(number)
    infoset_lst = [InfoSet.from_file(file_path=path, file_format=file_format, infosets_atomic_numbers=infosets_atomic_numbers) for path in file_paths_lst]
    groups = {}
    for s in infoset_lst:
        groups.setdefault(s.formula, []).append(s)
    reduced = []
    for formula, members in groups.items():
        if len(members) == 1:
            reduced.append(members[0])
            continue
        parameters = {"formula": formula, "formula_dict": members[-1].formula_dict, "num_frames": sum(m.num_frames for m in members)}
        for name in ("box", "types", "coord", "etot", "fatom"):
            parameters[name] = np.concatenate([getattr(m, name) for m in members], axis=0)
        if all(m.virial_mark for m in members):
            parameters["virial"] = np.concatenate([m.virial for m in members], axis=0)
        if all(m.eatom_mark for m in members):
            parameters["eatom"] = np.concatenate([m.eatom for m in members], axis=0)
        if all(m.magmom_mark for m in members):
            parameters["magmom"] = np.concatenate([m.magmom for m in members], axis=0)
        reduced.append(InfoSet(**parameters))
    infosets = cls(reduced)
    print(infosets)
    return infosets
#@ C06 matersdk/data/infosets.py InfoSets.from_dir
@classmethod
def _find_files(cls, dir_path, file_name):
    paths = []
    for root, dirs, files in os.walk(dir_path):
        for tmp_file in files:
            if tmp_file.upper() == file_name.upper():
                paths.append(os.path.join(root, tmp_file))
    return paths

@classmethod
def from_dir(cls, dir_path, file_name, file_format):
    file_paths_lst = cls._find_files(dir_path, file_name)
    infosets_atomic_numbers = []
    infoset_lst = []
    for tmp_file in file_paths_lst:
        infoset_lst.append(InfoSet.from_file(file_path=tmp_file, file_format=file_format))
    for tmp_infoset in infoset_lst:
        for tmp_element in tmp_infoset.formula_dict.keys():
            if specie2atomic_number[tmp_element] not in infosets_atomic_numbers:
                infosets_atomic_numbers.append(specie2atomic_number[tmp_element])
    infoset_lst = []
    formula_lst = []
    for tmp_file in file_paths_lst:
        tmp_infoset = InfoSet.from_file(file_path=tmp_file, file_format=file_format, infosets_atomic_numbers=infosets_atomic_numbers)
        infoset_lst.append(tmp_infoset)
        formula_lst.append(tmp_infoset.formula)
    formula2count = dict(Counter(formula_lst))
    reduced_infoset_lst = []
    for tmp_formula, tmp_fmcount in formula2count.items():
        same = [s for s in infoset_lst if s.formula == tmp_formula]
        if tmp_fmcount == 1:
            reduced_infoset_lst.extend(same)
            continue
        parameters = {
            "box": np.concatenate([s.box for s in same], axis=0),
            "types": np.concatenate([s.types for s in same], axis=0),
            "coord": np.concatenate([s.coord for s in same], axis=0),
            "etot": np.concatenate([s.etot for s in same], axis=0),
            "fatom": np.concatenate([s.fatom for s in same], axis=0),
            "formula": tmp_formula,
            "formula_dict": same[-1].formula_dict,
            "num_frames": sum([s.num_frames for s in same]),
        }
        if False not in [s.virial_mark for s in same]:
            parameters["virial"] = np.concatenate([s.virial for s in same], axis=0)
        if False not in [s.eatom_mark for s in same]:
            parameters["eatom"] = np.concatenate([s.eatom for s in same], axis=0)
        if False not in [s.magmom_mark for s in same]:
            parameters["magmom"] = np.concatenate([s.magmom for s in same], axis=0)
        reduced_infoset_lst.append(InfoSet(**parameters))
    infosets = cls(reduced_infoset_lst)
    print(infosets)
    return infosets
#@ C07 matersdk/io/publicLayer/structure.py DStructure.judge_vacuum_exist
def judge_vacuum_exist(self):
    extent = self.cart_coords.max(axis=0) - self.cart_coords.min(axis=0)
    return [bool(self.lattice.abc[k] - extent[k] > 10) for k in range(3)]
#@ C07 matersdk/io/publicLayer/structure.py DStructure.judge_vacuum_exist
def judge_vacuum_exist(self):
    out = []
    for axis, length in enumerate(self.lattice.abc):
        column = self.cart_coords[:, axis]
        out.append(length - (np.max(column) - np.min(column)) > 10)
    return out
#@ C07 matersdk/io/publicLayer/structure.py DStructure.reformat_elements
def reformat_elements(self, elements_lst):
    picked = [s for element in elements_lst for s in self.sites if str(s.specie) == element]
    return DStructure(
        lattice=self.lattice.matrix,
        species=[s.specie for s in picked],
        coords=[s.frac_coords for s in picked],
        coords_are_cartesian=False,
        site_properties={"magmom": [s.magmom for s in picked]})
#@ C07 matersdk/io/publicLayer/structure.py DStructure._get_bidx2aidx_supercell
def _get_bidx2aidx_supercell(self, scaling_matrix):
    supercell = self.make_supercell_(scaling_matrix=scaling_matrix, reformat_mark=False)
    order = sorted(range(len(supercell.sites)), key=lambda i: specie2atomic_number[str(supercell.sites[i].specie)])
    return {old: new for new, old in enumerate(order)}
#@ C07 matersdk/io/publicLayer/structure.py DStructure.get_key_idxs
def get_key_idxs(self, scaling_matrix):
    mapping = self._get_bidx2aidx_supercell(scaling_matrix=scaling_matrix)
    return np.array(sorted(mapping[i] for i in range(self.num_sites)))
#@ C07 matersdk/io/publicLayer/structure.py DStructure.remove_vacanies
def remove_vacanies(self):
    self.remove_sites(indices=[i for i, s in enumerate(self.sites) if str(s.specie) == "X0+"])
#@ C07 matersdk/io/publicLayer/structure.py DStructure.make_supercell_
def make_supercell_(self, scaling_matrix, reformat_mark=True):
    nx, ny, nz = scaling_matrix[0], scaling_matrix[1], scaling_matrix[2]
    new_lattice_array = np.dot(np.eye(3) * scaling_matrix, self.lattice.matrix)
    gx, gy, gz = np.meshgrid(np.arange(nx), np.arange(ny), np.arange(nz), indexing="ij")
    coeffs = np.vstack([gx.ravel() - (nx - 1) / 2, gy.ravel() - (ny - 1) / 2, gz.ravel() - (nz - 1) / 2]).T
    coeffs = coeffs[np.any(coeffs != np.array([0, 0, 0]), axis=1)]
    coeffs = np.insert(coeffs, 0, np.array([0, 0, 0]), axis=0)
    images = []
    for c in coeffs:
        shift = np.sum(np.dot(c * np.eye(3), self.lattice.matrix), axis=0)
        images.append(self.cart_coords + shift)
    coords = np.array(images).reshape(-1, 3)
    species = self.species * nx * ny * nz
    assert len(species) == coords.shape[0]
    supercell = DStructure(lattice=new_lattice_array, species=species, coords=coords, coords_are_cartesian=True)
    if reformat_mark:
        supercell.reformat_elements_()
    return supercell
#@ C07 matersdk/io/publicLayer/structure.py DStructure.make_supercell_
def make_supercell_(self, scaling_matrix, reformat_mark=True):
    new_lattice_array = np.dot(np.eye(3) * scaling_matrix, self.lattice.matrix)
    grid = np.meshgrid(*[np.arange(n) for n in scaling_matrix], indexing="ij")
    coeffs = np.vstack([grid[k].ravel() - (scaling_matrix[k] - 1) / 2 for k in range(3)]).T
    coeffs = coeffs[np.any(coeffs != np.array([0, 0, 0]), axis=1)]
    coeffs = np.insert(coeffs, 0, np.array([0, 0, 0]), axis=0)
    coords = np.array([self.cart_coords + np.dot(c, self.lattice.matrix) for c in coeffs]).reshape(-1, 3)
    species = self.species * scaling_matrix[0] * scaling_matrix[1] * scaling_matrix[2]
    assert len(species) == coords.shape[0]
    supercell = DStructure(lattice=new_lattice_array, species=species, coords=coords, coords_are_cartesian=True)
    if reformat_mark:
        supercell.reformat_elements_()
    return supercell
#@ C07 matersdk/io/publicLayer/structure.py DStructure.get_atomic_energy
def get_atomic_energy(self):
    return np.array([s.atomic_energy[0] for s in self.sites])
#@ C07 matersdk/io/publicLayer/structure.py DStructure.get_site_index
def get_site_index(self, site_coord):
    inverse = np.linalg.inv(self.lattice.matrix.T)
    for idx, coord in enumerate(self.cart_coords):
        coeff = inverse @ (site_coord - coord)
        if all(abs(c - int(round(c))) <= 1e-10 for c in coeff):
            return idx + 1
    return 0
#@ C07 matersdk/io/publicLayer/structure.py DStructure.get_centroid
def get_centroid(self):
    return np.mean(self.cart_coords, axis=0)
#@ C07 matersdk/io/publicLayer/structure.py DStructure.get_natoms
def get_natoms(self, atomic_numbers_order=False):
    counter = Counter(s.Z for s in self.species)
    order = atomic_numbers_order if atomic_numbers_order else list(counter.keys())
    return np.array([self.num_sites] + [counter[z] for z in order])
