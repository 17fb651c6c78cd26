from engine.harness import *
G = "matersdk.feature.graph.edge:AdjacentMatrix"
P = "matersdk.adalearn.generator.perturbation:PerturbStructure"
B = "matersdk.adalearn.generator.perturbation:BatchPerturbStructure"
SG, SP = "specs.graph:", "specs.perturbed:"


def obligations(tier):
    out = []

    def k(nm, cls, m, sp, a=(), want="value", op=()):
        out.append(Ob(nm, Run(cls + "." + m, list(a), self_={}, opaque=op), Run(sp, [sym("self", cls)] + list(a), opaque=op), want=want))
    for w in ("structure", "rcut", "scaling_matrix"):
        out.append(Ob("adjacency input: " + w, Run(G, ["$S", "$RC", "$M"], pick="self." + w), Run(SG + "Adj", ["$S", "$RC", "$M"], pick="self." + w)))
    out.append(Ob("scalings refused", Run(G, ["$S", "$RC", "$M"], asserts=True), Run(SG + "Adj", ["$S", "$RC", "$M"], asserts=True), want="raises"))
    k("images", G, "_get_shifted_supercell_frac_coords", SG + "images")
    k("adjacency matrix", G, "get_adjacent_matrix", SG + "adjacency", op=("_get_shifted_supercell_frac_coords",))
    k("random strain", P, "get_cell_perturb_matrix", SP + "strain", ["$F"], ("value", "raises"))
    k("random displacement", P, "get_atom_perturb_vector", SP + "kick", ["$D"], ("value", "raises"))
    k("rotation to lower triangular", P, "rot_lower_triangular", SP + "rotated", ["$A"], op=("DStructure",))
    k("perturbed copies", P, "perturb", SP + "perturbed", ["$N", "$F", "$D"], op=("get_cell_perturb_matrix", "get_atom_perturb_vector", "rot_lower_triangular"))
    out.append(Ob("batch of perturbed files", Run(B + ".batch_perturb", ["$L", "$N", "$F", "$D"], opaque=("PerturbStructure", "DStructure.from_file", "DStructure.to")),
                  Run(SP + "batch", ["$L", "$N", "$F", "$D"], opaque=("PerturbStructure", "DStructure.from_file", "DStructure.to")), want="effects"))
    return out
