from engine.harness import *
D = "matersdk.data.infoset:InfoSet."
OP = ("get_chunksizes", "get_chunkslices", "_find_extra_properties", "get_frames_info", "MVExtractor", "InfoSet")
F = ["box", "types", "coord", "etot", "fatom", "formula_dict", "formula", "num_frames", "virial", "eatom", "magmom"]
ISS = sym("self", "matersdk.data.infosets:InfoSets")


def obligations(tier):
    out = []
    for zs in (False, "$ZS"):
        out.append(Ob("load zs=%s" % zs, Run(D + "from_file", ["$F", "$FMT", zs], opaque=OP), Run("specs.dataset:load", ["$F", "$FMT", zs], opaque=OP), want=("value", "raises", "exc")))
    A = ["$" + x for x in F]
    for v, e, m in [(a, b, c) for a in (0, 1) for b in (0, 1) for c in (0, 1)]:
        B = A[:8] + ["$virial!" if v else False, "$eatom!" if e else False, "$magmom!" if m else False]
        for w in F + ["virial_mark", "eatom_mark", "magmom_mark"]:
            out.append(Ob("fields %d%d%d %s" % (v, e, m, w), Run("matersdk.data.infoset:InfoSet", B, pick="self." + w), Run("specs.dataset:keep", B, pick="value." + w), want="value"))
    out.append(Ob("total", Run("matersdk.data.infosets:InfoSets.get_num_frames", self_={}), Run("specs.dataset:total_frames", [ISS])))
    op = ("from_file", "InfoSet", "InfoSets")
    out.append(Ob("merge", Run("matersdk.data.infosets:InfoSets.from_dir", ["$TOP", "$NAME", "$FMT"], opaque=op), Run("specs.dataset:collect", [mk("ref", "class", "matersdk.data.infosets:InfoSets"), "$TOP", "$NAME", "$FMT"], opaque=op)))
    return out
