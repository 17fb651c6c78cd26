from engine.harness import *
R = "matersdk.io.pwmat.output.report:Report"
P = "specs.bands:"
ME = sym("self", R)
F = "matersdk.io.pwmat.output.outfermi:OutFermi"


def r(name, spec, args=(), opaque=(), sargs=None, want="value", own=False, nm=None):
    return Ob(nm or name, Run(R + "." + name, list(args), self_={} if own else {"report_path": "$P"}, opaque=opaque), Run(P + spec, sargs if sargs is not None else ["$P"] + list(args), opaque=opaque), want=want)


class Accepts(Ob):
    """no input is refused that the reference accepts; not checking at all is fine"""

    def judge(self, prog):
        res = Ob.judge(self, prog)
        return [("raises", "equal", [])] if select(self.ri, "raises") is FALSE else res


def obligations(tier):
    ef = (("get_efermi", "$EF"),)
    top = ("_is_metal", "get_eigen_energies") + ef
    return [
        r("_search_aim", "hits", ["$W"]),
        r("get_num_bands", "num_bands"),
        r("get_num_kpts", "num_kpts"),
        r("get_in_atom", "in_atom"),
        Ob("fermi", Run(F + ".get_efermi", ctor=["$P"]), Run(P + "fermi", ["$P"])),
        r("get_eigen_energies", "eigen", opaque=("get_num_kpts", "get_num_bands"), sargs=[ME], own=True),
        Accepts("both spins accepted when of one shape", Run(R + ".get_eigen_energies", [], self_={}, opaque=("get_num_kpts", "get_num_bands"), asserts=True), Run(P + "eigen_checked", [ME], opaque=("get_num_kpts", "get_num_bands"), asserts=True), want="raises"),
        r("_is_metal", "metal", ["$F", "$TOL"], opaque=("get_eigen_energies",) + ef, sargs=[ME, "$EF", "$TOL"], own=True),
        r("get_cbm", "conduction", ["$F"], opaque=top, sargs=[ME, "$F", "$EF"], own=True),
        r("get_vbm", "valence", ["$F"], opaque=top, sargs=[ME, "$F", "$EF"], own=True),
        r("get_bandgap", "gap", ["$F"], opaque=("get_cbm", "get_vbm"), sargs=[ME, "$F"], own=True),
        r("get_bandgap_type", "gap_kind", ["$F"], opaque=("get_cbm", "get_vbm"), sargs=[ME, "$F"], own=True),
    ]
