from engine.harness import *

M = "matersdk.io.pwmat.utils.acextractor:"
RULE = "value-number equality of every extractor method with the format's reference reader"


def obligations(tier):
    out = []
    for name, spec in (("get_num_atoms", "natoms_file"), ("get_basis_vectors", "file_lattice"), ("get_types", "file_types"),
                       ("get_coords", "file_coords"), ("get_magmoms", "file_magmoms")):
        out.append(Ob("ACExtractor." + name, Run(M + "ACExtractor." + name, ctor=["$F"]), Run("specs.extract:" + spec, ["$F"])))
    for name, spec in (("get_num_atoms", "natoms_text"), ("get_basis_vectors", "text_lattice"), ("get_types", "text_types"),
                       ("get_coords", "text_coords"), ("get_magmoms", "text_magmoms"), ("get_etot", "text_etot"), ("get_eatoms", "text_eatoms"),
                       ("get_fatoms", "text_forces"), ("get_virial", "text_virial")):
        out.append(Ob("ACstrExtractor." + name, Run(M + "ACstrExtractor." + name, ctor=["$TXT"]), Run("specs.extract:" + spec, ["$TXT"]), want=("value", "raises", "exc")))
    L = "matersdk.io.pwmat.utils.lineLocator:"
    out.append(Ob("LineLocator", Run(L + "LineLocator.locate_all_lines", ["$F", "$C"]), Run("specs.extract:locate_file", ["$F", "$C"])))
    out.append(Ob("ListLocator", Run(L + "ListLocator.locate_all_lines", ["$L", "$C"]), Run("specs.extract:locate_list", ["$L", "$C"])))
    return out
