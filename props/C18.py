from engine.harness import *
from engine.rules import pools
M = "matersdk.data.struct_collection:"
C = M + "StructCollection"
P = M + "ParallelFunction"
S = "specs.collection:"
me = sym("self", C)
NEW = ("StructCollection",)
NB = ("StructureNeighborsDescriptor.create", "ParallelFunction.get_max_num_nbrs_real", "ParallelFunction.get_max_num_nbrs_real_element")
F = ("num_structures", "structures_lst", "total_energys_array", "potential_energys_array", "kinetic_energys_array", "virial_tensors_array", "atomic_numbers_lst", "an2na", "num_atoms")


def obligations(tier):
    out = []
    for w in F:
        a = ["$ST", "$E", "$EP", "$EK", "$V"]
        out.append(Ob("collection: " + w, Run(C, a, pick="self." + w), Run(S + "Collection", a, pick="self." + w)))
    k = lambda nm, m, sp, a=(), want="value", op=(): Ob(nm, Run(C + "." + m, list(a), self_={}, opaque=op), Run(S + sp, [me] + list(a), opaque=op), want=want)
    out += [
        k("selection", "__getitem__", "part", ["$I!"], op=NEW), k("length", "__len__", "length"),
        k("species", "_get_atomic_numbers", "kinds"), k("atoms of each species", "_get_num_atoms_per_element", "counts"), k("atoms", "_get_num_atoms", "atoms"),
        Ob("from a trajectory", Run(C + ".from_trajectory_s", ["$T"], opaque=NEW), Run(S + "from_trajectory", ["$T"], opaque=NEW)),
        Ob("chosen frames", Run(C + ".from_indices", ["$C", "$I"], opaque=NEW), Run(S + "chosen", ["$C", "$I"], opaque=NEW), want=("value", "raises")),
        k("export", "to", "export", ["$DIR", "$N!"], want="effects"),
        k("image folders", "save_all_info", "save_images", ["$DIR", "$M!"], want="effects"),
        k("largest neighbour count", "get_max_num_nbrs_real", "widest", ["$R", "$M!"], op=NB),
        k("largest neighbour count of each species", "get_max_num_nbrs_real_element", "widest_each", ["$R", "$E", "$M!"], op=NB),
        Ob("neighbour files of an image", Run(P + ".save_struct_nbr", ["$D", "$S", "$M"], opaque=NB[:1]), Run(S + "one_table", ["$D", "$S", "$M"], opaque=NB[:1]), want="effects"),
        Ob("neighbour count of a structure", Run(P + ".get_max_num_nbrs_real", ["$S", "$R", "$M"], opaque=("StructureNeighborsUtils.get_max_num_nbrs_real",)), Run(S + "one_width", ["$S", "$R", "$M"], opaque=("StructureNeighborsUtils.get_max_num_nbrs_real",))),
        Ob("neighbour count of a structure, each species", Run(P + ".get_max_num_nbrs_real_element", ["$S", "$R", "$E", "$M"], opaque=("StructureNeighborsUtils.get_max_num_nbrs_real_element",)), Run(S + "one_width_each", ["$S", "$R", "$E", "$M"], opaque=("StructureNeighborsUtils.get_max_num_nbrs_real_element",))),
        pools("workers: image folders", Run(C + ".save_all_info", ["$DIR", "$M!"], self_={})),
        pools("workers: neighbour count", Run(C + ".get_max_num_nbrs_real", ["$R", "$M!"], self_={}, opaque=NB)),
        pools("workers: neighbour count of each species", Run(C + ".get_max_num_nbrs_real_element", ["$R", "$E", "$M!"], self_={}, opaque=NB)),
    ]
    for n, p in [(n, p) for n in range(0, 6 if tier == "quick" else 12) for p in range(1, 5 if tier == "quick" else 9)]:
        out.append(Ob("export of %d frames in sets of %d" % (n, p), Run(C + ".to", ["$DIR", p], self_={"num_structures": n}), Run(S + "export_sized", [me, "$DIR", n, [(lo, min(lo + p, n)) for lo in range(0, n, p)]]),
                      want="effects", frames=n, note="constant propagation with the frame count and set size fixed, array contents arbitrary"))
    return out
