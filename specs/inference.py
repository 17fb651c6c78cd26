"""Force-field extraction and inference: what is stored, what the network is fed."""
import h5py
import torch
import numpy as np
from matersdk.io.publicLayer.neigh import StructureNeighborsUtils, StructureNeighborsDescriptor
from matersdk.feature.deepmd.premise import DpFeaturePairPremiseDescriptor
from matersdk.feature.deepmd.preprocess import TildeRNormalizer
from matersdk.feature.deepmd.se_pair import DpseTildeRPairDescriptor
from matersdk.infer.pwmatmlff.deepmd.preprocess import InferPreprocessor
from matersdk.infer.pwmatmlff.deepmd.extractor import FFExtractor


class Extractor(object):
    def __init__(self, path, en, el, fn, fl):
        self.model = torch.load(f=path, map_location=torch.device("cpu"))
        self.model_state_dict = self.model["state_dict"]
        self.num_embedding_nets = en
        self.num_embedding_layers = el
        self.num_fitting_nets = fn
        self.num_fitting_layers = fl


def save_net(out, params, kind, nets, layers):
    for i in range(nets):
        for j in range(layers):
            w = kind + ".{0}.weights.weight{1}".format(i, j)
            b = kind + ".{0}.bias.bias{1}".format(i, j)
            r = kind + ".{0}.resnet_dt.resnet_dt{1}".format(i, j)
            out.create_dataset(w, data=params[w].numpy())
            out.create_dataset(b, data=params[b].numpy())
            try:
                out.create_dataset(r, data=params[r].numpy())
            except KeyError:
                pass


def save_model(self, path):
    params = self.model_state_dict
    out = h5py.File(path, "w")
    save_net(out, params, "embedding_net", self.num_embedding_nets, self.num_embedding_layers)
    save_net(out, params, "fitting_net", self.num_fitting_nets, self.num_fitting_layers)
    m1 = params["embedding_net.{0}.bias.bias{1}".format(self.num_embedding_nets - 1, self.num_embedding_layers - 1)].size()[-1]
    out.create_dataset("M1", data=m1)
    out.create_dataset("M2", data=int(params["fitting_net.0.weights.weight0"].size()[0] / m1))
    out.create_dataset("embedding_sizes", data=np.array([params["embedding_net.0.weights.weight{0}".format(j)].shape[-1] for j in range(self.num_embedding_layers)]))
    out.create_dataset("fitting_sizes", data=np.array([params["fitting_net.0.weights.weight{0}".format(j)].shape[-1] for j in range(self.num_fitting_layers)]))
    out.close()


def load_model(path):
    f = h5py.File(path, "r")
    out = {}
    for k, v in f.items():
        out[k] = v[()]
    f.close()
    return out


class Pre(object):
    def __init__(self, s, rcut, rsm, scaling, davg, dstd, centres, nbrs, widths, reformat=True, cartesian=True):
        self.structure = s
        self.center_atomic_numbers = centres
        self.nbr_atomic_numbers = nbrs
        self.max_num_nbrs = widths
        self.struct_nbr = StructureNeighborsDescriptor.create("v1", structure=s, rcut=rcut, scaling_matrix=scaling, reformat_mark=reformat, coords_are_cartesian=cartesian)
        self.dp_pair_premise = DpFeaturePairPremiseDescriptor.create("v1", structure_neighbors=self.struct_nbr)
        self.tildeR_normalizer = TildeRNormalizer(rcut=rcut, rcut_smooth=rsm, center_atomic_numbers=centres, nbr_atomic_numbers=nbrs, max_num_nbrs=widths, scaling_matrix=scaling, davgs=davg, dstds=dstd)


def vectors(self):
    rows = []
    for c in self.center_atomic_numbers:
        rows.append(np.concatenate([self.dp_pair_premise.expand_rc(center_atomic_number=c, nbr_atomic_number=n, max_num_nbrs=self.max_num_nbrs[k]) for k, n in enumerate(self.nbr_atomic_numbers)], axis=1))
    return np.expand_dims(np.concatenate(rows, axis=0), axis=0)


def features(self):
    out = self.tildeR_normalizer.normalize(structure=self.structure)
    return np.expand_dims(out[0], axis=0), np.expand_dims(out[1], axis=0)


def neighbours(self):
    return np.expand_dims(StructureNeighborsUtils.get_nbrs_indices(struct_nbr=self.struct_nbr, center_atomic_numbers=self.center_atomic_numbers, nbr_atomic_numbers=self.nbr_atomic_numbers, max_num_nbrs=self.max_num_nbrs), axis=0)


def counts(self):
    return np.repeat(self.structure.get_natoms(atomic_numbers_order=self.center_atomic_numbers)[np.newaxis, :], 1, axis=0)


class Infer(object):
    def __init__(self, path, device, rcut, rsm, davg, dstd, centres, nbrs, widths, scaling, reformat=True, cartesian=True):
        self.pt_file_path = path
        self.device = device
        self.rcut = rcut
        self.rcut_smooth = rsm
        self.davg = davg
        self.dstd = dstd
        self.center_atomic_numbers = centres
        self.nbr_atomic_numbers = nbrs
        self.max_num_nbrs = widths
        self.scaling_matrix = scaling
        self.reformat_mark = reformat
        self.coords_are_cartesian = cartesian
        if "cuda" in device:
            if not torch.cuda.is_available():
                raise ValueError("Cuda is not available, please change device.")


def feed(self, s):
    p = InferPreprocessor(structure=s, rcut=self.rcut, rcut_smooth=self.rcut_smooth, scaling_matrix=self.scaling_matrix, davg=self.davg, dstd=self.dstd, center_atomic_numbers=self.center_atomic_numbers,
                          nbr_atomic_numbers=self.nbr_atomic_numbers, max_num_nbrs=self.max_num_nbrs, reformat_mark=self.reformat_mark, coords_are_cartesian=self.coords_are_cartesian)
    ready = lambda a: torch.from_numpy(a).double().to(self.device).requires_grad_()
    rc = ready(p.expand_rc())
    both = p.expand_tildeR()
    value = ready(both[0])
    slope = ready(both[1])
    return rc, value, slope, ready(p.expand_list_neigh()), p.expand_natoms_img()


def predict(self, s):
    net = torch.load(f=self.pt_file_path)
    net.to(self.device)
    net.eval()
    fed = self._preprocess(structure=s)
    e, ea, fa, v = net(fed[0], fed[1], fed[2], fed[3], fed[4])
    if "cuda" in self.device:
        e = np.squeeze(e.cpu().detach().numpy(), axis=0)
        ea = np.squeeze(ea.cpu().detach().numpy(), axis=0)
        fa = np.squeeze(fa.cpu().detach().numpy(), axis=0)
        v = v.cpu().detach().numpy().reshape(3, 3)
    elif "cpu" in self.device:
        e = np.squeeze(e.detach().numpy(), axis=0)
        ea = np.squeeze(ea.detach().numpy(), axis=0)
        fa = np.squeeze(fa.detach().numpy(), axis=0)
        v = v.cpu().detach().numpy().reshape(3, 3)
    return e, ea, fa, v


class Old(object):
    def __init__(self, path, rcut, rsm, widths, davgs, dstds):
        self.model_params_dict = FFExtractor.get_hdf5_dict(hdf5_path=path)
        self.rcut = rcut
        self.rcut_smooth = rsm
        self.max_num_nbrs_dict = widths
        self.davgs_dict = davgs
        self.dstds_dict = dstds


def old_features(self, s, scaling):
    kinds = list(set([x.Z for x in s.species]))
    table = StructureNeighborsDescriptor.create("v1", structure=s, rcut=self.rcut, scaling_matrix=scaling, reformat_mark=True, coords_are_cartesian=True)
    out = {}
    for c in kinds:
        for n in kinds:
            pair = DpseTildeRPairDescriptor.create("v1", structure_neighbors=table, center_atomic_number=c, nbr_atomic_number=n, rcut=self.rcut, rcut_smooth=self.rcut_smooth)
            out["{0}_{1}".format(c, n)] = pair.get_tildeR(max_num_nbrs=self.max_num_nbrs_dict[n])
    return out
