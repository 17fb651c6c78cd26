from engine.harness import *
D = "matersdk.data.infoset:InfoSet."
IS = sym("self", "matersdk.data.infoset:InfoSet")
ISS = sym("self", "matersdk.data.infosets:InfoSets")


def sizes(tier):
    return [(n, p) for n in range(0, 8 if tier == "quick" else 13) for p in range(1, 6 if tier == "quick" else 9)]


def obligations(tier):
    out = []
    for n, p in sizes(tier):
        out.append(Ob("ranges for %d frames in parts of %d" % (n, p), Run(D + "to_dir", ["$DIR", p], self_={"num_frames": n}),
                      Run("specs.dataset:export_sized", [IS, "$DIR", [(lo, min(lo + p, n)) for lo in range(0, n, p)]]), want="effects", frames=n,
                      note="constant propagation with the frame count and part size fixed, array contents arbitrary"))
    return out + [
        Ob("export in parts", Run(D + "to_dir", ["$DIR", "$P!"], self_={}), Run("specs.dataset:export", [IS, "$DIR", "$P!"]), want="effects"),
        Ob("export whole", Run(D + "to_dir", ["$DIR", False], self_={}), Run("specs.dataset:export", [IS, "$DIR", False]), want="effects"),
        Ob("export all", Run("matersdk.data.infosets:InfoSets.to_dir", ["$TOP", "$P!"], self_={}), Run("specs.dataset:export_all", [ISS, "$TOP", "$P!"]), want="effects"),
        Ob("export all whole", Run("matersdk.data.infosets:InfoSets.to_dir", ["$TOP"], self_={}), Run("specs.dataset:export_all", [ISS, "$TOP", False]), want="effects"),
    ]
