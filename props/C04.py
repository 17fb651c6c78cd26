from engine.harness import *

Q = "matersdk.io.publicLayer.structure:DStructure"
D = Q + "."
SELF = sym("self", Q)
CLS = mk("ref", "class", Q)
AC = ("ACExtractor", "ACstrExtractor", "DStructure")


def m(name, spec, args=(), want="value", opaque=AC, sargs=None, nm=None, note=""):
    return Ob(nm or name, Run(D + name, list(args), self_={}, opaque=opaque), Run("specs.structure:" + spec, [SELF] + list(args if sargs is None else sargs), opaque=opaque), want=want, note=note)


def obligations(tier):
    return [
        Ob("from_file pwmat", Run(D + "from_file", ["$P", "pwmat"], opaque=AC), Run("specs.structure:read_file", [CLS, "$P", "pwmat"], opaque=AC), want=("value", "effects")),
        Ob("from_file other", Run(D + "from_file", ["$P", "vasp"], opaque=AC), Run("specs.structure:read_file", [CLS, "$P", "vasp"], opaque=AC), want=("value", "effects")),
        Ob("from_str", Run(D + "from_str", ["$S", "$K", "$C"], opaque=AC), Run("specs.structure:read_text", [CLS, "$S", "$K", "$C"], opaque=AC), want=("value", "raises")),
        m("to", "write", ["$P", "pwmat", "$M"], want="effects", sargs=["$P", "$M"]),
    ]
