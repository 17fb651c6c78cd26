#@ C18 matersdk/data/struct_collection.py StructCollection._get_num_atoms_per_element
def _get_num_atoms_per_element(self):
    zs = [site.specie.Z for site in self.structures_lst[0].sites]
    return {z: zs.count(z) for z in self.atomic_numbers_lst}
#@ C18 matersdk/data/struct_collection.py StructCollection._get_num_atoms_per_element
def _get_num_atoms_per_element(self):
    counts = {}
    for z in self.atomic_numbers_lst:
        counts[z] = sum(1 for site in self.structures_lst[0].sites if site.specie.Z == z)
    return counts
#@ C18 matersdk/data/struct_collection.py StructCollection._get_atomic_numbers
def _get_atomic_numbers(self):
    out = []
    for specie in self.structures_lst[0].species:
        if specie.Z not in out:
            out.append(specie.Z)
    return out
#@ C18 matersdk/data/struct_collection.py StructCollection.__getitem__
def __getitem__(self, index):
    return StructCollection(
        self.structures_lst[index],
        self.total_energys_array[index],
        self.potential_energys_array[index],
        self.kinetic_energys_array[index],
        self.virial_tensors_array[index])
#@ C18 matersdk/data/struct_collection.py StructCollection.__getitem__
def __getitem__(self, index):
    names = ('structures_lst', 'total_energys_array', 'potential_energys_array', 'kinetic_energys_array', 'virial_tensors_array')
    return StructCollection(**{name: getattr(self, name)[index] for name in names})
#@ C18 matersdk/data/struct_collection.py StructCollection.from_trajectory_s
@staticmethod
def from_trajectory_s(trajectory_object):
    return StructCollection(*trajectory_object.get_all_frame_structures_info())
#@ C18 matersdk/data/struct_collection.py StructCollection.from_indices
@staticmethod
def from_indices(struct_collection, indices_lst):
    if max(indices_lst) > len(struct_collection):
        raise IndexError("index in indices_lst is larger than len(DeepmdDataSystem)!!!")

    def pick(arr):
        return np.array([arr[i] for i in indices_lst])
    try:
        virials = pick(struct_collection.virial_tensors_array)
    except IndexError:
        virials = np.zeros(10)
    return StructCollection(
        structures_lst=[struct_collection.structures_lst[i] for i in indices_lst],
        total_energys_array=pick(struct_collection.total_energys_array),
        potential_energys_array=pick(struct_collection.potential_energys_array),
        kinetic_energys_array=pick(struct_collection.kinetic_energys_array),
        virial_tensors_array=virials)
#@ C18 matersdk/data/struct_collection.py StructCollection.to
def to(self, dir_path, set_size):
    if os.path.exists(dir_path):
        shutil.rmtree(dir_path)
        os.makedirs(dir_path)
    else:
        os.makedirs(dir_path)
    an2tm = {an: tm for tm, an in enumerate(self.atomic_numbers_lst)}
    with open(f"{dir_path}/type_map.raw", 'w') as f:
        for an in an2tm:
            f.write(atomic_number2specie[an] + "\n")
    with open(f"{dir_path}/type.raw", 'w') as f:
        f.write("\n".join(str(an2tm[self.structures_lst[0].species[i].Z]) for i in range(self.num_atoms)) + "\n")
    n = self.num_structures
    box = np.array([s.lattice.matrix.flatten() for s in self.structures_lst]).reshape(n, -1)
    coord = np.array([s.cart_coords for s in self.structures_lst]).reshape(n, -1)
    force = np.array([[x.atomic_force for x in s.sites] for s in self.structures_lst]).reshape(n, -1)
    energy = self.total_energys_array.reshape(n, -1)
    virial = self.virial_tensors_array.reshape(n, -1)
    eatom = np.array([[x.atomic_energy[0] for x in s.sites] for s in self.structures_lst])
    for k, start in enumerate(range(0, n, set_size)):
        rows = slice(start, min(start + set_size, n))
        folder = f"{dir_path}/set.{k:03d}"
        os.makedirs(folder)
        np.save(file=f"{folder}/cell.npy", arr=box[rows])
        np.save(file=f"{folder}/atom_coord.npy", arr=coord[rows])
        np.save(file=f"{folder}/tot_energy.npy", arr=energy[rows])
        np.save(file=f"{folder}/atom_force.npy", arr=force[rows])
        if np.any(self.virial_tensors_array != 0):
            np.save(file=f"{folder}/virial.npy", arr=virial[rows])
        if np.any(eatom != 0):
            np.save(file=f"{folder}/atom_energy.npy", arr=eatom[rows])
#@ C18 matersdk/data/struct_collection.py StructCollection.to
def to(self, dir_path, set_size):
    if os.path.exists(dir_path):
        shutil.rmtree(dir_path)
    os.makedirs(dir_path)
    an2tm = {}
    for tm, an in enumerate(self.atomic_numbers_lst):
        an2tm[an] = tm
    with open(os.path.join(dir_path, "type_map.raw"), 'w') as f:
        f.write("\n".join([atomic_number2specie[an] for an in an2tm]))
        f.write("\n")
    types = [an2tm[self.structures_lst[0].species[i].Z] for i in range(self.num_atoms)]
    with open(os.path.join(dir_path, "type.raw"), 'w') as f:
        f.write("\n".join(map(str, types)) + "\n")
    arrays = {
        "cell": np.array([s.lattice.matrix.flatten() for s in self.structures_lst]).reshape(self.num_structures, -1),
        "atom_coord": np.array([s.cart_coords for s in self.structures_lst]).reshape(self.num_structures, -1),
        "tot_energy": self.total_energys_array.reshape(self.num_structures, -1),
        "atom_force": np.array([[x.atomic_force for x in s.sites] for s in self.structures_lst]).reshape(self.num_structures, -1),
    }
    if np.any(self.virial_tensors_array != 0):
        arrays["virial"] = self.virial_tensors_array.reshape(self.num_structures, -1)
    eatom = np.array([[x.atomic_energy[0] for x in s.sites] for s in self.structures_lst])
    if np.any(eatom != 0):
        arrays["atom_energy"] = eatom
    num_sets = (self.num_structures + set_size - 1) // set_size
    for k in range(num_sets):
        folder = os.path.join(dir_path, "set.%03d" % k)
        os.makedirs(folder)
        for name, arr in arrays.items():
            np.save(file=os.path.join(folder, name + ".npy"), arr=arr[k * set_size:(k + 1) * set_size])
#@ C18 matersdk/data/struct_collection.py StructCollection.get_max_num_nbrs_real_element
def get_max_num_nbrs_real_element(self, rcut, nbr_elements, scaling_matrix):
    jobs = [(s, rcut, nbr_elements, scaling_matrix) for s in self.structures_lst]
    with mp.Pool(max(1, os.cpu_count() - 2)) as pool:
        found = pool.starmap(ParallelFunction.get_max_num_nbrs_real_element, jobs)
    best = {key: 0 for key in found[0]}
    for one in found:
        for key, value in one.items():
            best[key] = max(best[key], value)
    return best
#@ C18 matersdk/data/struct_collection.py StructCollection.get_max_num_nbrs_real
def get_max_num_nbrs_real(self, rcut, scaling_matrix=[3, 3, 3]):
    with mp.Pool(max(1, os.cpu_count() - 2)) as pool:
        found = pool.starmap(ParallelFunction.get_max_num_nbrs_real, [(s, rcut, scaling_matrix) for s in self.structures_lst])
    return np.max(np.array(found))
#@ C18 matersdk/data/struct_collection.py StructCollection.save_all_info
def save_all_info(self, dir_path, scaling_matrix=[3, 3, 3]):
    if not os.path.exists(dir_path):
        os.makedirs(dir_path)
    num_bits = len(str(self.num_structures))
    folders = []
    for i, structure in enumerate(self.structures_lst):
        folder = os.path.join(dir_path, f"%0{num_bits}d" % i)
        folders.append(folder)
        if os.path.exists(folder):
            shutil.rmtree(folder)
        os.mkdir(folder)
        structure.to(file_format="pwmat", file_path=os.path.join(folder, "atom.config"))
        np.save(file=os.path.join(folder, "box.npy"), arr=structure.lattice.matrix)
        np.save(file=os.path.join(folder, "coord.npy"), arr=structure.cart_coords)
        energies = np.array([self.total_energys_array[i], self.potential_energys_array[i], self.kinetic_energys_array[i]])
        np.save(file=os.path.join(folder, "energy.npy"), arr=energies)
        try:
            np.save(file=os.path.join(folder, "atomic_energy.npy"), arr=structure.get_atomic_energy())
        except AttributeError:
            pass
        np.save(file=os.path.join(folder, "atomic_force.npy"), arr=structure.get_atomic_force())
        np.save(file=os.path.join(folder, "virial.npy"), arr=self.virial_tensors_array[i])
        np.save(file=os.path.join(folder, "atomic_number.npy"), arr=np.array(self.atomic_numbers_lst))
    with mp.Pool(max(1, os.cpu_count() - 2)) as pool:
        pool.starmap(ParallelFunction.save_struct_nbr, [(folders[i], s, scaling_matrix) for i, s in enumerate(self.structures_lst)])
#@ C19 matersdk/infer/pwmatmlff/deepmd/extractor.py FFExtractor.save_hdf5_file
def _save_net(self, hdf5_file, name, num_nets, num_layers):
    for net in range(num_nets):
        for layer in range(num_layers):
            for kind in ('weights.weight', 'bias.bias'):
                key = f"{name}.{net}.{kind}{layer}"
                hdf5_file.create_dataset(key, data=self.model_state_dict[key].numpy())
            key = f"{name}.{net}.resnet_dt.resnet_dt{layer}"
            try:
                hdf5_file.create_dataset(key, data=self.model_state_dict[key].numpy())
            except KeyError:
                pass

def save_hdf5_file(self, hdf5_path):
    hdf5_file = h5py.File(hdf5_path, 'w')
    self._save_net(hdf5_file, 'embedding_net', self.num_embedding_nets, self.num_embedding_layers)
    self._save_net(hdf5_file, 'fitting_net', self.num_fitting_nets, self.num_fitting_layers)
    last = 'embedding_net.{0}.bias.bias{1}'.format(self.num_embedding_nets - 1, self.num_embedding_layers - 1)
    M1 = self.model_state_dict[last].size()[-1]
    M2 = int(self.model_state_dict['fitting_net.0.weights.weight0'].size()[0] / M1)
    hdf5_file.create_dataset('M1', data=M1)
    hdf5_file.create_dataset('M2', data=M2)
    sizes = [self.model_state_dict[f'embedding_net.0.weights.weight{i}'].shape[-1] for i in range(self.num_embedding_layers)]
    hdf5_file.create_dataset('embedding_sizes', data=np.array(sizes))
    sizes = [self.model_state_dict[f'fitting_net.0.weights.weight{i}'].shape[-1] for i in range(self.num_fitting_layers)]
    hdf5_file.create_dataset('fitting_sizes', data=np.array(sizes))
    hdf5_file.close()
#@ C19 matersdk/infer/pwmatmlff/deepmd/extractor.py FFExtractor.save_hdf5_file
def save_hdf5_file(self, hdf5_path):
    state = self.model_state_dict
    with h5py.File(hdf5_path, 'w') as h5:
        for name, nets, layers in (('embedding_net', self.num_embedding_nets, self.num_embedding_layers), ('fitting_net', self.num_fitting_nets, self.num_fitting_layers)):
            for net in range(nets):
                for layer in range(layers):
                    h5.create_dataset('{0}.{1}.weights.weight{2}'.format(name, net, layer), data=state['{0}.{1}.weights.weight{2}'.format(name, net, layer)].numpy())
                    h5.create_dataset('{0}.{1}.bias.bias{2}'.format(name, net, layer), data=state['{0}.{1}.bias.bias{2}'.format(name, net, layer)].numpy())
                    if '{0}.{1}.resnet_dt.resnet_dt{2}'.format(name, net, layer) in state:
                        h5.create_dataset('{0}.{1}.resnet_dt.resnet_dt{2}'.format(name, net, layer), data=state['{0}.{1}.resnet_dt.resnet_dt{2}'.format(name, net, layer)].numpy())
        M1 = state['embedding_net.{0}.bias.bias{1}'.format(self.num_embedding_nets - 1, self.num_embedding_layers - 1)].size()[-1]
        h5.create_dataset('M1', data=M1)
        h5.create_dataset('M2', data=int(state['fitting_net.0.weights.weight0'].size()[0] / M1))
        h5.create_dataset('embedding_sizes', data=np.array([state['embedding_net.0.weights.weight{0}'.format(i)].shape[-1] for i in range(self.num_embedding_layers)]))
        h5.create_dataset('fitting_sizes', data=np.array([state['fitting_net.0.weights.weight{0}'.format(i)].shape[-1] for i in range(self.num_fitting_layers)]))
#@ C19 matersdk/infer/pwmatmlff/deepmd/extractor.py FFExtractor.get_hdf5_dict
@staticmethod
def get_hdf5_dict(hdf5_path):
    with h5py.File(hdf5_path, 'r') as h5:
        return {key: value[()] for key, value in h5.items()}
#@ C19 matersdk/infer/pwmatmlff/deepmd/extractor.py FFExtractor.get_hdf5_dict
@staticmethod
def get_hdf5_dict(hdf5_path):
    h5 = h5py.File(hdf5_path, 'r')
    out = {}
    for key in h5.keys():
        out[key] = h5[key][()]
    h5.close()
    return out
#@ C19 matersdk/infer/pwmatmlff/deepmd/preprocess.py InferPreprocessor.expand_rc
def expand_rc(self):
    blocks = []
    for center in self.center_atomic_numbers:
        row = [self.dp_pair_premise.expand_rc(center_atomic_number=center, nbr_atomic_number=nbr, max_num_nbrs=width)
               for nbr, width in zip(self.nbr_atomic_numbers, self.max_num_nbrs)]
        blocks.append(np.concatenate(row, axis=1))
    return np.concatenate(blocks, axis=0)[np.newaxis, ...]
#@ C19 matersdk/infer/pwmatmlff/deepmd/preprocess.py InferPreprocessor.expand_rc
def expand_rc(self):
    def row(center):
        parts = []
        for i in range(len(self.nbr_atomic_numbers)):
            parts.append(self.dp_pair_premise.expand_rc(center_atomic_number=center, nbr_atomic_number=self.nbr_atomic_numbers[i], max_num_nbrs=self.max_num_nbrs[i]))
        return np.concatenate(parts, axis=1)
    rc = np.concatenate([row(center) for center in self.center_atomic_numbers], axis=0)
    return np.expand_dims(rc, axis=0)
#@ C19 matersdk/infer/pwmatmlff/deepmd/preprocess.py InferPreprocessor.expand_natoms_img
def expand_natoms_img(self):
    natoms = self.structure.get_natoms(self.center_atomic_numbers)
    return natoms[np.newaxis, :]
#@ C19 matersdk/infer/pwmatmlff/deepmd/preprocess.py InferPreprocessor.expand_tildeR
def expand_tildeR(self):
    return tuple(np.expand_dims(a, axis=0) for a in self.tildeR_normalizer.normalize(structure=self.structure))
#@ C19 matersdk/infer/pwmatmlff/deepmd/inference.py DpInfer.infer
def infer(self, structure):
    model = torch.load(f=self.pt_file_path)
    model.to(self.device)
    model.eval()
    e_tot, e_atoms, f_atoms, virial = model(*self._preprocess(structure=structure))
    if 'cuda' in self.device:
        e_tot, e_atoms, f_atoms = [np.squeeze(x.cpu().detach().numpy(), axis=0) for x in (e_tot, e_atoms, f_atoms)]
        virial = virial.cpu().detach().numpy().reshape(3, 3)
    elif 'cpu' in self.device:
        e_tot, e_atoms, f_atoms = [np.squeeze(x.detach().numpy(), axis=0) for x in (e_tot, e_atoms, f_atoms)]
        virial = virial.cpu().detach().numpy().reshape(3, 3)
    return e_tot, e_atoms, f_atoms, virial
#@ C19 matersdk/infer/pwmatmlff/deepmd/inference.py DpInfer.infer
def infer(self, structure):
    model = torch.load(self.pt_file_path)
    model.to(self.device)
    model.eval()
    rc, tildeR, tildeR_deriv, list_neigh, natoms_image = self._preprocess(structure)
    outs = model(rc, tildeR, tildeR_deriv, list_neigh, natoms_image)
    e_tot, e_atoms, f_atoms, virial = outs
    if 'cuda' in self.device:
        e_tot, e_atoms, f_atoms = e_tot.cpu(), e_atoms.cpu(), f_atoms.cpu()
    if 'cuda' in self.device or 'cpu' in self.device:
        e_tot = np.squeeze(e_tot.detach().numpy(), axis=0)
        e_atoms = np.squeeze(e_atoms.detach().numpy(), axis=0)
        f_atoms = np.squeeze(f_atoms.detach().numpy(), axis=0)
        virial = virial.cpu().detach().numpy().reshape(3, 3)
    return e_tot, e_atoms, f_atoms, virial
#@ C19 matersdk/infer/pwmatmlff/deepmd/inference.py DpInfer._preprocess
def _tensor(self, array):
    return torch.from_numpy(array).double().to(self.device).requires_grad_()

def _preprocess(self, structure):
    pre = InferPreprocessor(structure, self.rcut, self.rcut_smooth, self.scaling_matrix, self.davg, self.dstd, self.center_atomic_numbers, self.nbr_atomic_numbers, self.max_num_nbrs, self.reformat_mark, self.coords_are_cartesian)
    tildeR, tildeR_deriv = pre.expand_tildeR()
    return (self._tensor(pre.expand_rc()), self._tensor(tildeR), self._tensor(tildeR_deriv), self._tensor(pre.expand_list_neigh()), pre.expand_natoms_img())
#@ C19 matersdk/infer/pwmatmlff/deepmd/inference_depre.py FFInfer.calc_tildeR
def calc_tildeR(self, structure, scaling_matrix):
    kinds = self._get_atomic_numbers(structure)
    nbrs = StructureNeighborsDescriptor.create('v1', structure=structure, rcut=self.rcut, scaling_matrix=scaling_matrix, reformat_mark=True, coords_are_cartesian=True)
    out = {}
    for center, nbr in [(a, b) for a in kinds for b in kinds]:
        pair = DpseTildeRPairDescriptor.create('v1', structure_neighbors=nbrs, center_atomic_number=center, nbr_atomic_number=nbr, rcut=self.rcut, rcut_smooth=self.rcut_smooth)
        out[f'{center}_{nbr}'] = pair.get_tildeR(max_num_nbrs=self.max_num_nbrs_dict[nbr])
    return out
#@ C19 matersdk/infer/pwmatmlff/deepmd/inference_depre.py FFInfer.calc_tildeR
def _pair(self, struct_nbr, center, nbr):
    pair = DpseTildeRPairDescriptor.create('v1', structure_neighbors=struct_nbr, center_atomic_number=center, nbr_atomic_number=nbr, rcut=self.rcut, rcut_smooth=self.rcut_smooth)
    return pair.get_tildeR(max_num_nbrs=self.max_num_nbrs_dict[nbr])

def calc_tildeR(self, structure, scaling_matrix):
    kinds = self._get_atomic_numbers(structure=structure)
    nbrs = StructureNeighborsDescriptor.create('v1', structure=structure, rcut=self.rcut, scaling_matrix=scaling_matrix, reformat_mark=True, coords_are_cartesian=True)
    return {'{0}_{1}'.format(c, n): self._pair(nbrs, c, n) for c in kinds for n in kinds}
