from engine.harness import *
K = "matersdk.io.pwmat.input.inkpt:Inkpt"
P = "specs.bands:"
ME = sym("self", K)


def k(name, spec, args=(), opaque=(), sargs=None):
    return Ob(name, Run(K + "." + name, list(args), self_={"in_kpt_path": "$P"} if sargs is None else {}, opaque=opaque), Run(P + spec, sargs if sargs is not None else ["$P"], opaque=opaque))


def obligations(tier):
    D = ("DStructure.from_file",)
    return [
        k("_get_iflag", "kpt_flag"), k("_get_a0", "kpt_a0"), k("get_num_kpts", "kpt_count"), k("get_kpt_coords_frac", "kpt_frac"), k("get_kpt_weights", "kpt_weights"),
        k("get_hsp", "special"), k("_get_idx2hsp", "special_rows"),
        k("get_kpt_coords_A", "cartesian", ["$C"], D + ("get_kpt_coords_frac",), [ME, "$C"]),
        k("get_kpt_coords_Bohr", "cartesian_bohr", ["$C"], D + ("get_kpt_coords_frac",), [ME, "$C"]),
        k("_get_distance_from_nbr", "steps", ["$C"], ("get_kpt_coords_A",), [ME, "$C"]),
        k("_split_distances_from_gamma_lst", "pieces", ["$C"], ("_get_idx2hsp", "_get_distance_from_nbr"), [ME, "$C"]),
        k("get_distance_from_gamma_A", "path_length", ["$C"], ("_split_distances_from_gamma_lst",), [ME, "$C"]),
        k("get_distance_from_gamma_bohr", "path_length_bohr", ["$C"], ("get_distance_from_gamma_A",), [ME, "$C"]),
    ]
