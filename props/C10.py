from engine.harness import *
Q = "matersdk.feature.deepmd.preprocess:"
N = Q + "TildeRNormalizer"
PN = Q + "TildeRPairNormalizer"
P = "specs.descriptor:"
OP = ("DpseTildeRPairV1", "StructureNeighborsV1", "TildeRPairNormalizer", "get_tildeR", "calc_derivative", "TildeRPairNormalizer.normalize", "normalize_derivative")


def me(q):
    return sym("self", q)


def ref(q):
    return mk("ref", "class", q)


def obligations(tier):
    A = ["$SYS", "$IDX", "$RC", "$RS", "$CS", "$ZS", "$W", "$N"]
    cs = ("concat_tildeRs4calc_stats",)
    out = [
        Ob("statistics", Run(PN + ".calc_stats", ["$T"], self_={}), Run(P + "stats", ["$T"])),
        Ob("deviation", Run(PN + "._calc_std", ["$A", "$B", "$M"], self_={}), Run(P + "std", ["$A", "$B", "$M"])),
        Ob("normalize", Run(PN + ".normalize", ["$T"], self_={}), Run(P + "scaled", [me(PN), "$T"])),
        Ob("normalize derivative", Run(PN + ".normalize_derivative", ["$T"], self_={}), Run(P + "scaled_slope", [me(PN), "$T"])),
        Ob("pairs", Run(N + "._normalize", ["$S"], self_={}, opaque=OP), Run(P + "all_pairs", [me(N), "$S"], opaque=OP)),
        Ob("joined", Run(N + ".normalize", ["$S"], self_={}, opaque=("_normalize",)), Run(P + "joined", [me(N), "$S"], opaque=("_normalize",))),
        Ob("statistics per centre", Run(N + ".calc_stats", A, opaque=OP + cs), Run(P + "per_center", A, opaque=OP + cs)),
        Ob("sampled matrices", Run(Q + "NormalizerPremise.concat_tildeRs4calc_stats", A, opaque=OP), Run(P + "sample", A, opaque=OP)),
        Ob("save", Run(N + ".to", ["$P"], self_={}), Run(P + "save", [me(N), "$P"]), want="effects"),
        Ob("load", Run(N + ".from_file", ["$P"], opaque=("TildeRNormalizer",)), Run(P + "load", [ref(N), "$P"], opaque=("TildeRNormalizer",))),
        Ob("from system", Run(N + ".from_dp_labeled_system", A, opaque=("TildeRNormalizer", "calc_stats")), Run(P + "build", [ref(N)] + A, opaque=("TildeRNormalizer", "calc_stats"))),
    ]
    for w in ("rcut", "rcut_smooth", "center_atomic_numbers", "nbr_atomic_numbers", "max_num_nbrs", "scaling_matrix", "davgs", "dstds"):
        a = ["$RC", "$RS", "$CS", "$ZS", "$W", "$N", "$M", "$D"]
        out.append(Ob("built " + w, Run(N, a, pick="self." + w), Run(P + "Normalizer", a, pick="self." + w), want="value"))
    out.append(Ob("built shapes", Run(N, a, asserts=True), Run(P + "Normalizer", a, asserts=True), want="raises"))
    return out
