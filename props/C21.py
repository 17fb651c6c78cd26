import itertools
from engine.harness import *
D = "specs.cellgeo:"


def obligations(tier):
    out = []
    A = ["$N#", "$B", "$Z", "$X"]

    def k(nm, f, a, r=None):
        out.append(Ob(nm, Run(D + f, list(a)), Run(D + (r or "r_" + f), list(a))))
    k("vector operations", "vec3", ["$U", "$V"])
    for c in (True, False):
        k("structure from %s coordinates" % ("Cartesian" if c else "fractional"), "built", A + [c])
        k("copy of a structure (%s)" % c, "copied", A + [c], "r_built")
        k("assignment of a structure (%s)" % c, "assigned", A + [c], "r_built")
        k("structure from rows (%s)" % c, "built_rows", A + [c], "r_built")
        k("a structure overwritten with an empty one (%s)" % c, "emptied", A + [c])
        k("a structure overwritten with a smaller one (%s)" % c, "replaced", A + [c], "r_built")
    k("projected lengths", "projected", A)
    k("interplanar distances", "planes", A)
    k("corners", "corners", A)
    k("bounding box", "limits", A)
    K = ["$K#", "$L#", "$M#"]
    for kinds in itertools.product((0, 1, 2), repeat=3):
        if tier != "thorough" and 0 not in kinds and kinds not in ((2, 1, 2), (2, 2, 1)):
            continue
        nm = " x ".join(("1", "even", "odd")[q] for q in kinds)
        k("supercell " + nm, "enlarged", A + K + list(kinds))
        k("position of the original cell " + nm, "home", A + K + list(kinds))
        if kinds in ((0, 0, 2), (2, 0, 1), (0, 1, 2), (2, 2, 1)):
            k("outline of a supercell " + nm, "outline", A + K + list(kinds))
            k("outline of a copied supercell " + nm, "outline_of_copy", A + K + list(kinds), "r_outline")
    return out
