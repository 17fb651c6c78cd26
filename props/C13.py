from engine.harness import *
M = "matersdk.io.pwmat.output.movement:Movement"
P = "specs.movement:"
ME = sym("self", M)


def m(name, spec, args=(), opaque=(), want="value"):
    op = opaque + ("locate_all_lines", "DStructure.from_str")
    return Ob(name, Run(M + "." + name, list(args), self_={}, opaque=op), Run(P + spec, [ME] + list(args), opaque=op), want=want)


def obligations(tier):
    ll = ("locate_all_lines",)
    fs = ("_get_frame_str",)
    out = [
        Ob("get_chunksize", Run(M + ".get_chunksize", self_={"movement_path": "$P"}, opaque=ll), Run(P + "sizes", ["$P"], opaque=ll)),
        m("get_chunkslice", "bounds"),
        m("_get_frame_str", "frame_text", ["$K"]),
        m("get_all_frame_structures", "structures"),
        m("get_frame_structure", "one_structure", ["$K"], fs),
        m("get_frame_energy", "one_energy", ["$K"], fs),
        m("get_frame_virial", "one_virial", ["$K"], fs),
    ]
    for i, w in enumerate(("structures", "total energies", "potential energies", "kinetic energies", "virials")):
        op = ("locate_all_lines", "DStructure.from_str")
        out.append(Ob("whole trajectory: " + w, Run(M + ".get_all_frame_structures_info", self_={}, opaque=op, pick="value.%d" % i), Run(P + "everything", [ME], opaque=op, pick="value.%d" % i)))
    for w in ("movement_path", "chunksizes_lst", "chunkslices_lst"):
        out.append(Ob("built " + w, Run(M, ["$P"], pick="self." + w, opaque=("locate_all_lines",)), Run(P + "Built", ["$P"], pick="self." + w, opaque=("locate_all_lines",))))
    return out
