from engine.harness import *
F = "matersdk.feature.deepmd."
PR = F + "premise:DpFeaturePairPremiseV1"
SP = F + "se_pair:DpseTildeRPairV1"
SE = F + "se:DpseTildeRPairV1"
P = "specs.descriptor:"
NB = sym("NB", "matersdk.io.publicLayer.neigh:StructureNeighborsV1")
W = {"dp_feature_pair_d": "$D", "dp_feature_pair_rc": "$X", "rcut": "$RC", "rcut_smooth": "$RS", "dp_feature_pair_tildeR": "$T"}


def me(q):
    return sym("self", q)


def obligations(tier):
    op = ("extract_feature_pair",)
    out = [
        Ob("pair features", Run(PR + ".extract_feature_pair", ["$C", "$Z"], ctor=[NB]), Run(P + "pair", [NB, "$C", "$Z"])),
        Ob("padded coordinates", Run(PR + ".expand_rc", ["$C", "$Z", "$W"], self_={}, opaque=op, asserts=True), Run(P + "padded_rc", [me(PR), "$C", "$Z", "$W"], opaque=op, asserts=True), want=("value", "raises")),
        Ob("weight", Run(SP + "._get_s", ["$RC", "$RS"], self_={"dp_feature_pair_d": "$D"}), Run(P + "weight", ["$D", "$RC", "$RS"])),
        Ob("matrix", Run(SP + "._get_tildeR", ["$RC", "$RS"], self_={}), Run(P + "tilde", [me(SP), "$RC", "$RS"])),
        Ob("padded matrix", Run(SP + ".get_tildeR", ["$W"], self_={}), Run(P + "tilde_padded", [me(SP), "$W"])),
        Ob("derivative", Run(SP + "._calc_derivative", self_={}), Run(P + "slope", [me(SP)])),
        Ob("padded derivative", Run(SP + ".calc_derivative", ["$W"], self_={}, opaque=("_calc_derivative",)), Run(P + "slope_padded", [me(SP), "$W"], opaque=("_calc_derivative",))),
        Ob("flattened", Run(SE + ".get_tildeR", ctor=[NB, "$CS", "$ZS", "$SEL", "$RC", "$RS"], opaque=(SP,)), Run(P + "flat", [NB, "$CS", "$ZS", "$SEL", "$RC", "$RS"], opaque=(SP,))),
    ]
    for w in ("rcut", "rcut_smooth", "dp_feature_pair_an", "dp_feature_pair_d", "dp_feature_pair_rc", "dp_feature_pair_tildeR"):
        a = [NB, "$C", "$Z", "$RC", "$RS"]
        out.append(Ob("built " + w, Run(SP, a, pick="self." + w, opaque=op), Run(P + "Pair", a, pick="self." + w, opaque=op), want="value"))
    return out
