from engine.harness import *
D = "specs.mtp:"


def obligations(tier):
    out = []

    def k(nm, f, a, r=None, **kw):
        out.append(Ob(nm, Run(D + f, list(a), **kw), Run(D + (r or "r_" + f), list(a), **kw)))
    R = ["$R", "$C", "$S"]
    k("distance scaled to the interval of the polynomials", "scaled", R)
    k("radial switch and its derivative", "switch2", R)
    k("radial switch and its derivative, second implementation", "switchr", R, "r_switch2")
    k("first six polynomials and their derivatives", "cheb6", R)
    k("polynomials of any number by recurrence", "cheb", ["$N#"] + R)
    k("polynomials rebuilt at another distance", "again6", ["$Q"] + R)
    k("first six radial functions and their derivatives", "q6", R)
    k("radial functions of any number", "q", ["$N#"] + R, opaque=("ChebyshevPoly.build__1",))
    k("first six polynomials, second implementation", "rb6", R)
    k("polynomials of any number, second implementation", "rb", ["$N#"] + R)
    k("first six radial functions, second implementation", "rq6", R)
    k("level of a moment", "level", ["$M", "$V"])
    k("contractible products", "contracted", ["$P"])
    k("products up to a level", "build", ["$L#"], opaque=("MtpMCoeffPairCombs.get_all_schemes4lev__3", "MtpMCoeffPairCombs.get_contracted_combs__1"))
    ALL = "MtpMCoeffPairCombs.get_all_schemes4lev__3"
    out.append(Ob("products of one level", Run(D + "schemes", ["$L#", "$M", "$V"], opaque=("rec:" + ALL,)), Run(D + "r_schemes", ["$L#", "$M", "$V"], opaque=(ALL,))))
    return out
