from engine.harness import *
D = "specs.deepmd:"
ONE = ("SwitchFunc.get_result__1", "SwitchFunc.get_deriv2r__1", "smooth_func__3", "recip__1")


def obligations(tier):
    out = []

    def k(nm, f, a, r=None, **kw):
        out.append(Ob(nm, Run(D + f, list(a), **kw), Run(D + (r or "r_" + f), list(a), **kw)))
    k("switching function and its derivative", "switch", ["$R", "$C", "$S"])
    k("smooth weight", "smooth", ["$R", "$C", "$S"])
    k("environment matrix", "env", ["$N#", "$M", "$F", "$D", "$T", "$K#", "$U", "$C", "$S"], opaque=ONE)
    k("descriptor of all centres", "se", ["$N#", "$L", "$M", "$F", "$X", "$T", "$K#", "$U", "$C", "$S"], opaque=ONE)
    # one small table written out: counters, block starts and row starts as plain numbers
    AT = [0, 1, 4, 6, 8, 12, 16, 17, 20]
    k("environment matrix, two centres and two species", "env_small", [2, [2, 2], [1, 2, 0, 2, 1, 0], "$D", [0, 1, 1], 2, [1, 2], "$C", "$S", AT], opaque=ONE)
    k("descriptor of all centres, two centres and two species", "se_small", [2, [0, 1], [2, 2], [1, 2, 0, 2, 0, 0], "$X", [0, 1, 1], 2, [1, 2], "$C", "$S", AT], opaque=ONE)
    k("pair of species, two centres", "pair_small", [3, [0, 1, 2], [2, 2, 2], [[1, 2], [0, 2], [0, 1]], "$X", [0, 1, 1], 1, 1, 2, "$C", "$S"], opaque=ONE)
    k("atoms of the home cell behind the neighbours", "home", ["$N#", "$L", "$M", "$F", "$T", "$K#", "$U"])
    P = ["$N#", "$L", "$M", "$F", "$X", "$T", "$Z", "$W", "$U#", "$C", "$S"]
    k("descriptor of a pair of species", "pair", P, opaque=ONE)
    k("derivative for a pair of species", "pairder", P, opaque=ONE)
    W = ["$N#", "$L", "$M", "$F", "$X", "$T", "$P#", "$Z", "$Q#", "$W", "$U", "$C", "$S"]
    for f, nm in (("whole", "descriptor of all pairs of species"), ("wholeder", "derivative for all pairs of species")):
        k(nm, f, W, opaque=("PairTildeR.generate__11", "PairTildeR.deriv__11"))
        k(nm + ", into memory of the caller", f + "_into", W + ["$A#", "$B#"], opaque=("PairTildeR.generate__11", "PairTildeR.deriv__11"))
    V = ["$N#", "$G", "$C", "$H", "$X", "$Z"]
    k("descriptor of a pair from a neighbour list", "own", V + ["$I", "$J", "$U#", "$S"], opaque=ONE)
    k("numbers of centres and neighbours", "counts", V + ["$P#", "$I", "$Q#", "$J", "$S"])
    for f, nm in (("joined", "descriptor of all pairs from a neighbour list"), ("joinedder", "derivative for all pairs from a neighbour list")):
        k(nm, f, V + ["$P#", "$I", "$Q#", "$J", "$S", "$A", "$B"], opaque=("PairTildeR.generate__0", "PairTildeR.deriv__0"))
    return out
