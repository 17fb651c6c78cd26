"""Collections of labelled structures: what a user may rely on."""
import os
import shutil
import multiprocessing as mp
import numpy as np
from matersdk.data.struct_collection import StructCollection, ParallelFunction
from matersdk.io.pwmat.utils.parameters import atomic_number2specie
from matersdk.io.publicLayer.neigh import StructureNeighborsDescriptor, StructureNeighborsUtils


class Collection(object):
    def __init__(self, structures, total, potential, kinetic, virials):
        first = structures[0]
        kinds = list(dict.fromkeys([s.Z for s in first.species]))
        self.num_structures = len(structures)
        self.structures_lst = structures
        self.total_energys_array = total
        self.potential_energys_array = potential
        self.kinetic_energys_array = kinetic
        self.virial_tensors_array = virials
        self.atomic_numbers_lst = kinds
        self.an2na = {z: len([site for site in first.sites if site.specie.Z == z]) for z in kinds}
        self.num_atoms = first.num_sites


def part(self, which):
    return StructCollection(structures_lst=self.structures_lst[which], total_energys_array=self.total_energys_array[which], potential_energys_array=self.potential_energys_array[which],
                            kinetic_energys_array=self.kinetic_energys_array[which], virial_tensors_array=self.virial_tensors_array[which])


def length(self):
    return self.num_structures


def kinds(self):
    return list(dict.fromkeys([s.Z for s in self.structures_lst[0].species]))


def counts(self):
    return {z: len([site for site in self.structures_lst[0].sites if site.specie.Z == z]) for z in self.atomic_numbers_lst}


def atoms(self):
    return self.structures_lst[0].num_sites


def from_trajectory(traj):
    info = traj.get_all_frame_structures_info()
    return StructCollection(structures_lst=info[0], total_energys_array=info[1], potential_energys_array=info[2], kinetic_energys_array=info[3], virial_tensors_array=info[4])


def chosen(coll, picks):
    if max(picks) > len(coll):
        raise IndexError("index in indices_lst is larger than len(DeepmdDataSystem)!!!")
    try:
        vir = np.array([coll.virial_tensors_array[i] for i in picks])
    except IndexError:
        vir = np.zeros(10)
    return StructCollection(structures_lst=[coll.structures_lst[i] for i in picks],
                            total_energys_array=np.array([coll.total_energys_array[i] for i in picks]),
                            potential_energys_array=np.array([coll.potential_energys_array[i] for i in picks]),
                            kinetic_energys_array=np.array([coll.kinetic_energys_array[i] for i in picks]),
                            virial_tensors_array=vir)


def fresh_dir(top):
    if os.path.exists(top):
        shutil.rmtree(top)
        os.makedirs(top)
    else:
        os.makedirs(top)


def species_files(self, top):
    rank = {}
    for k, z in enumerate(self.atomic_numbers_lst):
        rank[z] = k
    with open(top + "/type_map.raw", "w") as f:
        f.write("\n".join([atomic_number2specie[z] for z in rank]) + "\n")
    with open(top + "/type.raw", "w") as f:
        f.write("\n".join([str(rank[self.structures_lst[0].species[i].Z]) for i in range(self.num_atoms)]) + "\n")


def write_sets(self, top, n, ranges):
    sites_e = np.array([[site.atomic_energy[0] for site in s.sites] for s in self.structures_lst])
    tables = [("cell", np.array([s.lattice.matrix.flatten() for s in self.structures_lst]).reshape(n, -1)),
              ("atom_coord", np.array([s.cart_coords for s in self.structures_lst]).reshape(n, -1)),
              ("tot_energy", self.total_energys_array.reshape(n, -1)),
              ("atom_force", np.array([[site.atomic_force for site in s.sites] for s in self.structures_lst]).reshape(n, -1))]
    virials = self.virial_tensors_array.reshape(n, -1)
    for k, r in enumerate(ranges):
        home = top + "/" + "set.%03d" % k
        os.makedirs(home)
        for name, table in tables:
            np.save(file=home + "/" + name + ".npy", arr=table[r[0]:r[1]])
        if np.any(self.virial_tensors_array != 0):
            np.save(file=home + "/virial.npy", arr=virials[r[0]:r[1]])
        if np.any(sites_e != 0):
            np.save(file=home + "/atom_energy.npy", arr=sites_e[r[0]:r[1]])


def export(self, top, size):
    fresh_dir(top)
    species_files(self, top)
    n = self.num_structures
    nsets = n // size
    if size * nsets < n:
        nsets += 1
    write_sets(self, top, n, [(k * size, (k + 1) * size) for k in range(nsets)])


def export_sized(self, top, n, ranges):
    fresh_dir(top)
    species_files(self, top)
    write_sets(self, top, n, ranges)


def save_images(self, top, scaling):
    if not os.path.exists(top):
        os.makedirs(top)
    for i in range(self.num_structures):
        home = os.path.join(top, f"%0{len(str(self.num_structures))}d" % i)
        if os.path.exists(home):
            shutil.rmtree(home)
        os.mkdir(home)
        s = self.structures_lst[i]
        s.to(file_format="pwmat", file_path=os.path.join(home, "atom.config"))
        np.save(file=os.path.join(home, "box.npy"), arr=s.lattice.matrix)
        np.save(file=os.path.join(home, "coord.npy"), arr=s.cart_coords)
        np.save(file=os.path.join(home, "energy.npy"), arr=np.array([self.total_energys_array[i], self.potential_energys_array[i], self.kinetic_energys_array[i]]))
        try:
            np.save(file=os.path.join(home, "atomic_energy.npy"), arr=s.get_atomic_energy())
        except AttributeError:
            pass
        np.save(file=os.path.join(home, "atomic_force.npy"), arr=s.get_atomic_force())
        np.save(file=os.path.join(home, "virial.npy"), arr=self.virial_tensors_array[i])
        np.save(file=os.path.join(home, "atomic_number.npy"), arr=np.array(self.atomic_numbers_lst))
    jobs = [(os.path.join(top, f"%0{len(str(self.num_structures))}d" % i), self.structures_lst[i], scaling) for i in range(self.num_structures)]
    with mp.Pool(max(1, os.cpu_count() - 2)) as pool:
        pool.starmap(ParallelFunction.save_struct_nbr, jobs)


def widest(self, rcut, scaling):
    with mp.Pool(max(1, os.cpu_count() - 2)) as pool:
        found = pool.starmap(ParallelFunction.get_max_num_nbrs_real, [(s, rcut, scaling) for s in self.structures_lst])
    return np.max(found)


def widest_each(self, rcut, names, scaling):
    with mp.Pool(max(1, os.cpu_count() - 2)) as pool:
        found = pool.starmap(ParallelFunction.get_max_num_nbrs_real_element, [(s, rcut, names, scaling) for s in self.structures_lst])
    best = dict.fromkeys(list(found[0].keys()), 0)
    for one in found:
        for key in one.keys():
            if one[key] > best[key]:
                best[key] = one[key]
    return best


def one_table(home, structure, scaling):
    nb = StructureNeighborsDescriptor.create("v1", structure=structure, scaling_matrix=scaling, reformat_mark=True, coords_are_cartesian=True)
    np.save(file=os.path.join(home, "nbrs_atomic_numbers.npy"), arr=nb.key_nbr_atomic_numbers)
    np.save(file=os.path.join(home, "nbrs_distances.npy"), arr=nb.key_nbr_distances)
    np.save(file=os.path.join(home, "nbrs_coords.npy"), arr=nb.key_nbr_coords)


def one_width(structure, rcut, scaling):
    return StructureNeighborsUtils.get_max_num_nbrs_real(structure=structure, rcut=rcut, scaling_matrix=scaling, coords_are_cartesian=True)


def one_width_each(structure, rcut, names, scaling):
    return StructureNeighborsUtils.get_max_num_nbrs_real_element(structure=structure, rcut=rcut, nbr_elements=names, scaling_matrix=scaling, coords_are_cartesian=True)
