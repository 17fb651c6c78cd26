from engine.harness import *
V = "matersdk.io.pwmat.input.gen_vext:GenVext"
D = "matersdk.io.pwmat.input.dos_input:DosInput"
J = "matersdk.hpc.slurm.job:Job"
P = "specs.writers:"


def w(cls, spec):
    return Ob(spec, Run(cls + ".to", ["$PATH"], self_={}), Run(P + spec, [sym("self", cls), "$PATH"]), want="effects")


def built(cls, spec, args, fields):
    return [Ob("built %s.%s" % (spec, f), Run(cls, args, pick="self." + f), Run(P + spec, args, pick="self." + f), want="value") for f in fields]


def obligations(tier):
    jf = ("partition", "name", "num_nodes", "num_tasks_per_node", "num_threads_per_core", "num_gpus", "num_gpus_per_task", "command")
    df = ("mark_atoms", "mark_method", "ismear", "num_energies", "grid_interp")
    return ([w(V, "vext"), w(D, "dos_file"), w(J, "slurm")] + [Ob("vext kinds", Run(V, ["$C", "$K", "$ADD"], asserts=True), Run(P + "Vext", ["$C", "$K", "$ADD"], asserts=True), want="raises")] + built(V, "Vext", ["$C", "$K", "$ADD", "$A1", "$A2", "$A3"], ("vr_center", "vr_type", "add_vr", "as_param_lst"))
            + built(D, "Dos", ["$A", "$B", "$C", "$D", "$E"], df) + [Ob("default " + f, Run(D, [], pick="self." + f), Run(P + "Dos", [], pick="self." + f)) for f in df]
            + built(J, "Slurm", ["$A", "$B", "$C", "$D", "$E", "$F", "$G"], jf))
