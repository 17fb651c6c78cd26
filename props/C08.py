from engine.harness import *
N = "matersdk.io.publicLayer.neigh:"
U = N + "StructureNeighborsUtils."
V = N + "StructureNeighborsV1"
P = "specs.neighbors:"
SELF = sym("self", V)
OP = ("get_key_idxs", "make_supercell_", "get_site_index")


def obligations(tier):
    out = []
    for cart in (True, False):
        t = " cartesian" if cart else " fractional"
        out += [
            Ob("largest count" + t, Run(U + "get_max_num_nbrs_real", ["$S", "$R", "$N", cart], opaque=OP), Run(P + "count_max", ["$S", "$R", "$N", cart], opaque=OP)),
            Ob("largest count by element" + t, Run(U + "get_max_num_nbrs_real_element", ["$S", "$R", "$E", "$N", cart], opaque=OP), Run(P + "count_max_by_element", ["$S", "$R", "$E", "$N", cart], opaque=OP)),
            Ob("table" + t, Run(V + "._get_key_neighs_info", ["$N", "$R", cart], self_={}, opaque=OP), Run(P + "table", [SELF, "$N", "$R", cart], opaque=OP)),
        ]
    for w in (False, "$W!"):
        out.append(Ob("indices width=%s" % w, Run(U + "_get_nbrs_indices", ["$B", "$ZC", "$ZN", w], opaque=OP), Run(P + "indices", ["$B", "$ZC", "$ZN", w], opaque=OP)))
    op = OP + ("_get_nbrs_indices",)
    out.append(Ob("all indices", Run(U + "get_nbrs_indices", ["$B", "$ZC", "$ZN", "$W"], opaque=op), Run(P + "all_indices", ["$B", "$ZC", "$ZN", "$W"], opaque=op)))
    for w in ("structure", "supercell", "key_nbr_atomic_numbers", "key_nbr_distances", "key_nbr_coords"):
        for a in (["$S", "$R", "$N", "$RE", "$C"], ["$S"]):
            b = a if len(a) > 1 else ["$S", 6.5, [3, 3, 3], True, True]
            out.append(Ob("built %s%s" % (w, "" if len(a) > 1 else " by default"), Run(V, a, pick="self." + w, opaque=OP), Run(P + "Tables", b, pick="self." + w, opaque=OP), want="value"))
    return out
