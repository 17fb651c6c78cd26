"""Reference: generated input files."""
import os


class Vext(object):
    def __init__(self, center, kind, add, *params):
        assert kind in [1, 2, 3]
        self.vr_center = center
        self.vr_type = kind
        self.add_vr = add
        self.as_param_lst = list(params)


def vext(self, path):
    with open(path, "w") as f:
        f.write("VR_CENTER = {0}\n".format(" ".join([str(v) for v in self.vr_center])))
        f.write("VR_TYPE = {0}\n".format(self.vr_type))
        f.write("VR_DETAIL = {0}\n".format(" ".join([str(v) for v in self.as_param_lst])))
        f.write("ADD_VR = {0}\n".format("T" if self.add_vr else "F"))


class Dos(object):
    def __init__(self, atoms=0, method=0, smear=0.04, energies=4000, grid=[6, 6, 6]):
        self.mark_atoms = atoms
        self.mark_method = method
        self.ismear = smear
        self.num_energies = energies
        self.grid_interp = grid


def dos(self):
    """the fields of each line, before its comment"""
    return ["{0}".format(self.mark_atoms), "{0}".format(self.mark_method), "{0:<.5f}  {1:<10d}".format(self.ismear, self.num_energies), " ".join([str(v) for v in self.grid_interp]), "0"]


def dos_file(self, path):
    with open(path, "w") as f:
        f.write("{0}  # 设置为0，则绘制所有原子的DOS；设置为1，则绘制部分原子的DOS，需要在atom.config文件POSITION部分的第8列设置原子权重\n".format(self.mark_atoms))
        f.write("{0}  # 设置为1，绘制DOS时使用插值；设置为0，使用高斯展宽(Gaussian broadening)，不做插值\n".format(self.mark_method))
        f.write("{0:<.5f}  {1:<10d} # 做插值的imsearing energy (单位：eV); 能量网格点数，默认为4000\n".format(self.ismear, self.num_energies))
        f.write("{0}  # NM1,NM2,NM3 插值的格子密度，每个格子包含在NQ1, NQ2, NQ3中\n".format(" ".join([str(v) for v in self.grid_interp])))
        f.write("0  # 只对TDDFT DOS绘制有用")


class Slurm(object):
    def __init__(self, partition, name, nodes, tasks, threads, gpus, gpus_per_task):
        self.partition = partition
        self.name = name
        self.num_nodes = nodes
        self.num_tasks_per_node = tasks
        self.num_threads_per_core = threads
        self.num_gpus = gpus
        self.num_gpus_per_task = gpus_per_task
        self.command = None


def slurm(self, name):
    with open(os.path.join(os.getcwd(), name), "w") as f:
        f.write("#!/bin/bash\n")
        for key, value in (("partition=", self.partition), ("job-name=", self.name), ("nodes=", self.num_nodes), ("ntasks-per-node=", self.num_tasks_per_node),
                           ("threads-per-core=", self.num_threads_per_core), ("gres=gpu:", self.num_gpus), ("gpus-per-task=", self.num_gpus_per_task)):
            f.write("#SBATCH --{0}{1}\n".format(key, value))
        f.write("\n\n\n")
        f.write("{0}".format(self.command))
