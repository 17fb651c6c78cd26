from engine.harness import *
from specs.symbols import SYMBOLS
P = "specs.elements:"


def obligations(tier):
    out = [Ob("table sizes", Run(P + "size_in_code"), Run(P + "size_required"))]
    for z, s in enumerate(SYMBOLS):
        out.append(Ob("symbol of %d" % z, Run(P + "symbol_in_code", [z]), Run(P + "symbol_required", [z]), note="atomic number %d is %s" % (z, s)))
        out.append(Ob("number of %s" % s, Run(P + "number_in_code", [s]), Run(P + "same", [z]), note="%s is atomic number %d" % (s, z)))
        out.append(Ob("inverse at %d" % z, Run(P + "there_and_back", [z]), Run(P + "same", [z])))
    return out
