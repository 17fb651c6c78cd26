from engine.harness import *
D = "matersdk.io.pwmat.output.dostotalspin:Dostotalspin"
F = "matersdk.io.pwmat.output.fatabandstructureTxt:FatbandStructure"
P = "specs.projection:"


def f(name, spec, args=(), opaque=(), path=False, cls=F, want="value"):
    op = tuple(opaque) + ("locate_all_lines",)
    field = "dos_totalspin_path" if cls is D else "fatbandstructure_txt_path"
    return Ob(name, Run(cls + "." + name, list(args), self_={field: "$P"} if path else {}, opaque=op), Run(P + spec, (["$P"] if path else [sym("self", cls)]) + list(args), opaque=op), want=want)


def obligations(tier):
    pre = ("_preprocess",)
    return [
        f("_preprocess", "cleaned", path=True, cls=D, want=("value", "effects")),
        f("get_tdos", "total", cls=D), f("get_pdos_elements", "by_element", cls=D), f("get_pdos_orbitals", "by_orbital", cls=D),
        Ob("built", Run(D, ["$P"], pick="self.bak_dosfile_path"), Run(P + "Cleaned", ["$P"], pick="self.bak_dosfile_path")),
        f("_get_num_bands", "band_count", path=True), f("_get_num_kpoints", "kpoint_count", path=True), f("_get_BAND_mark_idxs", "band_marks", path=True),
        Ob("fatband table", Run(F + "._preprocess", self_={"fatbandstructure_txt_path": "$P"}), Run(P + "band_table", ["$P"])),
        f("_get_elements_lst", "band_elements", opaque=pre),
        f("get_total_dfs_lst", "bands", opaque=pre), f("get_element_dfs_lst", "bands_by_element", opaque=pre), f("get_orbital_dfs_lst", "bands_by_orbital", ["$O"], opaque=pre),
    ]
