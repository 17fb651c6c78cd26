import itertools
from engine.harness import *
FOUND = ("BinLinkedList.get_neigh_atoms__1",)
D = "specs.nblist:"


def obligations(tier):
    out = []

    def k(nm, f, a, r=None):
        out.append(Ob(nm, Run(D + f, list(a)), Run(D + (r or "r_" + f), list(a))))
    k("chains of atoms", "chains", ["$N#", "$X", "$S", "$O", "$K#", "$L#", "$M#"])
    k("bin of an atom", "bin_of", ["$N#", "$X", "$H", "$P", "$S", "$O", "$B", "$I"])
    k("number of bins searched", "num_near", ["$R+", "$S"])
    for pbc in itertools.product((True, False), repeat=3):
        if tier != "thorough" and pbc not in ((True, True, True), (False, False, False), (True, False, True)):
            continue
        k("bins searched, periodic along %s" % (" ".join(c for c, p in zip("xyz", pbc) if p) or "nothing"), "near", ["$N#", "$X", "$H", "$P", "$R+", "$S", "$B", list(pbc), "$A", "$O", "$I"])
    P = ["$N#", "$X", "$H", "$P", "$R+", "$S", "$B", [True, True, True], "$A", "$O", "$G", "$E", "$I"]
    out.append(Ob("atoms found", *[Run(D + f, P, opaque=("BinLinkedList.get_neigh_bins__1",)) for f in ("found", "r_found_in")]))
    if tier == "thorough":
        k("atoms found, bins included", "found", P)
    W = ["$N#", "$Y", "$R+", "$H", "$X", "$Z"]
    k("largest number of neighbours", "most", W)
    k("largest number of neighbours of a species", "most_of", W + ["$C", "$F"])
    k("tables for a potential", "tables", W + ["$U#"])
    for srt in (True, False):
        out.append(Ob("order of the neighbours (%s)" % ("by distance" if srt else "as found"), *[Run(D + f, ["$N#", "$R+", "$H", "$X", srt], opaque=FOUND) for f in ("ordered", "r_ordered")]))
    CORE = ("Structure.get_interplanar_distances__0", "Structure.get_limit_xyz__0", "Structure.get_projected_lengths__0", "BinLinkedList._build__0", "Supercell.ctor__2")
    Q = ["$N#", "$B", "$Z", "$X", "$R+"]
    for given in (True, False):
        for pbc in ([True, True, True], [False, False, False], [True, True, False]):
            out.append(Ob("set-up of the bins (%s, %s)" % ("given size" if given else "default size", pbc), *[Run(D + f, Q + ["$S", pbc, given], opaque=CORE) for f in ("set_up", "r_set_up")]))
        out.append(Ob("set-up of the list (%s)" % ("given size" if given else "default size"), *[Run(D + f, Q + ["$S", [True, False, True], given, False], opaque=("BinLinkedList.ctor__4", "BinLinkedList.ctor__3") + FOUND) for f in ("list_of", "r_list_of")]))
    return out
