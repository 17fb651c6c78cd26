from engine.harness import *

M = "matersdk.io.pwmat.utils.mvextractor:MVExtractor."
MARKS = {"virial_mark": "$V", "eatoms_mark": "$E", "magmoms_mark": "$M"}
AC = ("get_basis_vectors", "get_types", "get_coords", "get_etot", "get_fatoms", "get_virial", "get_eatoms", "get_magmoms", "ACstrExtractor.get_num_atoms")


def obligations(tier):
    sp = "specs.frames:"
    SELF = sym("self", "matersdk.io.pwmat.utils.mvextractor:MVExtractor")
    out = [Ob("built " + w, Run(M[:-1], ["$F"], pick="self." + w, opaque=AC), Run(sp + "Frames", ["$F"], pick="self." + w, opaque=AC), want="value")
           for w in ("mv_path", "chunksizes", "chunkslices", "num_frames", "virial_mark", "eatoms_mark", "magmoms_mark")]
    out.append(Ob("number of frames", Run(M + "get_num_frames", self_={"num_frames": "$NF"}), Run(sp + "same", ["$NF"])))
    return out + [
        Ob("chunk sizes", Run(M + "get_chunksizes", self_={"mv_path": "$F"}), Run(sp + "sizes", ["$F"])),
        Ob("frame count", Run(M + "get_chunksizes", self_={"mv_path": "$F"}, pick="self.num_frames"), Run(sp + "nframes", ["$F"]), want="value"),
        Ob("chunk slices", Run(M + "get_chunkslices", self_={"chunksizes": "$CH"}), Run(sp + "slices", ["$CH"])),
        Ob("frame text", Run(M + "get_frame_str", ["$K"], self_={"mv_path": "$F", "chunkslices": "$CUT"}), Run(sp + "frame_text", ["$F", "$CUT", "$K"])),
        Ob("one frame", Run(M + "get_frame_info", ["$K"], self_=MARKS, opaque=AC + ("get_frame_str",)), Run(sp + "one_frame", [SELF, "$K", "$V", "$E", "$M"], opaque=AC + ("get_frame_str",))),
        Ob("all frames", Run(M + "get_frames_info", self_=dict(MARKS, mv_path="$F", chunksizes="$CH"), opaque=AC), Run(sp + "all_frames", ["$F", "$CH", "$V", "$E", "$M"], opaque=AC)),
        Ob("labels", Run(M + "get_info_labels", self_=MARKS), Run(sp + "labels", ["$V", "$E", "$M"])),
        Ob("marks", Run(M + "_find_extra_properties", self_={}, opaque=AC + ("get_frame_str",)), Run(sp + "marks", [SELF], opaque=AC + ("get_frame_str",))),
    ]
