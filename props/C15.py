from engine.harness import *
K = "matersdk.calculation.kpath.kpathSampler:KpathSampler"
M = "matersdk.calculation.kpoints.kmesh:KMesh"
S = "matersdk.calculation.kpoints.kpointsSampler:KPointsSampler"
P = "specs.kpath:"


def k(name, spec, args=(), cls=K, want="value", sargs=None, own=None):
    return Ob(name, Run(cls + "." + name, list(args), self_=own or {}), Run(P + spec, [sym("self", cls)] + (list(args) if sargs is None else sargs)), want=want)


def obligations(tier):
    return [
        k("_get_kpoints", "points", want=("value", "raises")), k("_get_kpaths", "paths", want=("value", "raises")),
        k("output_HIGHK_file", "write_points", want="effects", sargs=["./HIGHK"]),
        k("output_gen_kpt", "write_path", ["$DENS"], want="effects", sargs=["./gen.kpt", "$DENS"]),
        k("get_kmesh", "mesh", ["$DENS"], cls=M), k("get_kpoints", "irreducible", cls=S), k("get_num_kpoints", "irreducible_count", cls=S),
    ] + [Ob("get_kmesh along axis %d" % i, Run(M + ".get_kmesh", ["$DENS"], self_={}, pick="value.%d" % i), Run(P + "mesh", [sym("self", M), "$DENS"], pick="value.%d" % i)) for i in range(3)]
