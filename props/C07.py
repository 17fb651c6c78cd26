from engine.harness import *

Q = "matersdk.io.publicLayer.structure:DStructure"
D = Q + "."
SELF = sym("self", Q)
CLS = mk("ref", "class", Q)
AC = ("ACExtractor", "ACstrExtractor", "DStructure")


def m(name, spec, args=(), want="value", opaque=AC, sargs=None, nm=None, note=""):
    return Ob(nm or name, Run(D + name, list(args), self_={}, opaque=opaque), Run("specs.structure:" + spec, [SELF] + list(args if sargs is None else sargs), opaque=opaque), want=want, note=note)


def obligations(tier):
    out = [
        m("judge_vacuum_exist", "vacuum"),
        m("reformat_elements", "by_elements", ["$E"]),
        m("reformat_elements_", "by_number", want="effects"),
        m("remove_vacanies", "drop_vacancies", want="effects"),
        m("make_supercell_", "supercell", ["$N", False]),
        m("make_supercell_", "supercell", ["$N", True], want=("value", "effects", "raises"), nm="make_supercell_ reordered"),
        m("_get_bidx2aidx_supercell", "supercell_rank", ["$N"], opaque=AC + ("make_supercell_",)),
        m("get_key_idxs", "key_sites", ["$N"], opaque=AC + ("_get_bidx2aidx_supercell",)),
        m("get_atomic_force", "forces"),
        m("get_atomic_energy", "energies"),
        m("get_site_index", "locate", ["$X"]),
        m("get_centroid", "centroid"),
        m("get_natoms", "counts", ["$O"]),
        m("get_natoms", "counts", [False], nm="get_natoms default"),
    ]
    return out
