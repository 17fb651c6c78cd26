from engine.harness import *
D = "specs.own:"
NAMES = {"cheb": "Chebyshev polynomials", "q": "radial functions", "rb": "Chebyshev basis", "rq": "switched Chebyshev basis", "structure": "structure", "supercell": "supercell",
         "bins": "bins", "list": "neighbour list", "pair": "descriptor of a pair", "tilde": "descriptor", "param": "parameters"}


def obligations(tier):
    out = []

    def k(nm, f, a, r="plain"):
        out.append(Ob(nm, Run(D + f, list(a)), Run(D + r, list(a))))
    for kind, nm in NAMES.items():
        radial = kind in ("cheb", "q", "rb", "rq")
        if radial:
            A = [kind, "$N#" if kind in ("cheb", "rb") or tier == "thorough" else 3, "$R", "$C", "$S"]
        elif kind in ("structure", "supercell"):
            A = [kind, "$N#", "$B", "$Z", "$X"]
        else:
            A = [kind, 2, "$B", "$Z", "$X", "$R+", "$H"]
        k(nm + ": the copy survives the original", "copied", A)
        k(nm + ": the original survives the copy", "original", A)
        k(nm + ": assigned to an empty object", "assigned", A)
        k(nm + ": assigned to another object", "replaced", A)
        k(nm + ": assigned to itself", "itself", A)
        k(nm + ": the assignment returns the object", "returned", A, "yes")
        k(nm + ": cleared and filled again", "cleared", A, "r_cleared")
        k(nm + ": cleared and destroyed", "emptied", A, "r_empties")
        k(nm + ": copies of an empty object", "empties", A, "r_empties")
        if kind not in ("pair", "list"):
            k(nm + ": memory given back when destroyed", "destroyed", A, "all_given_back")
            k(nm + ": memory given back when overwritten", "overwritten", A, "all_given_back")
        if radial or kind == "param":
            k(nm + ": memory given back when moved over", "overwritten_by_move", A, "all_given_back")
            k(nm + ": moved", "moved", A, "r_moved")
            k(nm + ": move-assigned", "move_assigned", A, "r_move_assigned")
            k(nm + ": move-assigned to itself", "move_itself", A)
        if radial:
            B = [kind, 3] + A[2:]
            k(nm + ": copies built again", "rebuilt", B, "r_rebuilt")
            k(nm + ": moved, filled and built again", "moved_on", B, "r_moved_on")
    return out
