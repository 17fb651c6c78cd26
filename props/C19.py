from engine.harness import *
B = "matersdk.infer.pwmatmlff.deepmd."
X, P, I, O = B + "extractor:FFExtractor", B + "preprocess:InferPreprocessor", B + "inference:DpInfer", B + "inference_depre:FFInfer"
S = "specs.inference:"
CUT = ("StructureNeighborsDescriptor.create", "DpFeaturePairPremiseDescriptor.create", "DpseTildeRPairDescriptor.create", "TildeRNormalizer", "get_nbrs_indices", "get_hdf5_dict")


def obligations(tier):
    out = []

    def fields(title, cls, spec, args, names):
        for w in names:
            out.append(Ob(title + ": " + w, Run(cls, args, pick="self." + w, opaque=CUT), Run(S + spec, args, pick="self." + w, opaque=CUT)))

    def k(nm, cls, m, sp, a=(), want="value", op=CUT):
        out.append(Ob(nm, Run(cls + "." + m, list(a), self_={}, opaque=op), Run(S + sp, [sym("self", cls)] + list(a), opaque=op), want=want))
    fields("force field", X, "Extractor", ["$P", "$EN", "$EL", "$FN", "$FL"], ("model", "model_state_dict", "num_embedding_nets", "num_embedding_layers", "num_fitting_nets", "num_fitting_layers"))
    k("stored force field", X, "save_hdf5_file", "save_model", ["$H"], "effects")
    out.append(Ob("loaded force field", Run(X + ".get_hdf5_dict", ["$H"]), Run(S + "load_model", ["$H"])))
    fields("image", P, "Pre", ["$S", "$RC", "$RS", "$M", "$DA", "$DS", "$C", "$N", "$W", "$RF!", "$CC!"], ("structure", "center_atomic_numbers", "nbr_atomic_numbers", "max_num_nbrs", "struct_nbr", "dp_pair_premise", "tildeR_normalizer"))
    k("relative positions", P, "expand_rc", "vectors")
    k("features", P, "expand_tildeR", "features")
    k("neighbour indices", P, "expand_list_neigh", "neighbours")
    k("atom counts", P, "expand_natoms_img", "counts")
    fields("inference", I, "Infer", ["$P", "$D", "$RC", "$RS", "$DA", "$DS", "$C", "$N", "$W", "$M", "$RF!", "$CC!"],
           ("pt_file_path", "device", "rcut", "rcut_smooth", "davg", "dstd", "center_atomic_numbers", "nbr_atomic_numbers", "max_num_nbrs", "scaling_matrix", "reformat_mark", "coords_are_cartesian"))
    a = ["$P", "$D", "$RC", "$RS", "$DA", "$DS", "$C", "$N", "$W", "$M", "$RF!", "$CC!"]
    out.append(Ob("device refused", Run(I, a, opaque=CUT), Run(S + "Infer", a, opaque=CUT), want="raises"))
    k("network input", I, "_preprocess", "feed", ["$S"], op=CUT + ("InferPreprocessor",))
    k("prediction", I, "infer", "predict", ["$S"], ("value", "effects"), op=("_preprocess",))
    fields("older inference", O, "Old", ["$H", "$RC", "$RS", "$W", "$DA", "$DS"], ("model_params_dict", "rcut", "rcut_smooth", "max_num_nbrs_dict", "davgs_dict", "dstds_dict"))
    k("older features", O, "calc_tildeR", "old_features", ["$S", "$M"])
    return out
