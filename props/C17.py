from engine.harness import *
from engine.rules import pools
F = "matersdk.feature.avg."
B = F + "avgbond:"
S = "specs.averages:"
PR = ("extract_feature_pair", "StructureNeighborsDescriptor.create")
MV = ("Movement",)


def obligations(tier):
    me = sym("self", B + "AvgBond")
    out = [
        Ob("mean bond length", Run(B + "AvgBond.get_avg_bond_length", ["$N", "$Z1", "$Z2"]), Run(S + "mean_bond", ["$N", "$Z1", "$Z2"])),
        Ob("mean bond length of every frame", Run(B + "AvgBond.get_frames_avg_bond", ["$C"], self_={}, opaque=PR), Run(S + "frames_mean_bond", [me, "$C"], opaque=PR)),
        Ob("bonds at an angle", Run(B + "AvgBond.get_bond_lengths_lst_according2angle", ["$N", "$Z1", "$Z2", "$Z3", "$A", "$T"], opaque=PR), Run(S + "bonds_near_angle", ["$N", "$Z1", "$Z2", "$Z3", "$A", "$T"], opaque=PR)),
        Ob("mean bond angle", Run(F + "avgangle:AvgAngle.get_avg_bond", ["$N", "$Z1", "$Z2", "$Z3"], opaque=PR), Run(S + "mean_angle", ["$N", "$Z1", "$Z2", "$Z3"], opaque=PR)),
        Ob("length of one pair in every frame", Run(B + "PairBond.get_frames_pair_bond", self_={"frames_lst": "$F", "atom1_idx": "$I", "atom2_idx": "$J"}), Run(S + "pair_lengths", ["$F", "$I", "$J"])),
        Ob("displacements", Run(F + "msd:Msd.calc_msd", self_={"structures_lst": "$F"}), Run(S + "msd", ["$F"])),
        Ob("displacements about the centroid", Run(F + "msd:Msd.calc_msd_sub_centroid", self_={"structures_lst": "$F"}), Run(S + "msd_inner", ["$F"])),
        Ob("diffraction intensity", Run(F + "msd:DiffractionIntensity.calc_di", self_={"q": "$Q", "msd_array": "$M"}), Run(S + "intensity", ["$Q", "$M"])),
    ]
    out += [pools("workers: bonds", Run(B + "AvgBond.get_frames_avg_bond", ["$C"], self_={}, opaque=PR)),
            pools("workers: displacements", Run(F + "msd:Msd.calc_msd", self_={})),
            pools("workers: displacements about the centroid", Run(F + "msd:Msd.calc_msd_sub_centroid", self_={}))]
    for w in ("frames_lst", "atomic_number_1", "atomic_number_2", "rcut"):
        out.append(Ob("bonds: " + w, Run(B + "AvgBond", ["$P", "$E1", "$E2", "$R"], pick="self." + w, opaque=("get_all_frame_structures_info", "Movement")), Run(S + "Bonds", ["$P", "$E1", "$E2", "$R"], pick="self." + w, opaque=("get_all_frame_structures_info", "Movement"))))
    for w in ("q", "msd_array"):
        out.append(Ob("intensity: " + w, Run(F + "msd:DiffractionIntensity", ["$T", "$Q"], pick="self." + w), Run(S + "Intensity", ["$T", "$Q"], pick="self." + w)))
    return out
