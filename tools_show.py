import sys, importlib, threading
sys.path.insert(0, "/verif"); sys.setrecursionlimit(20000); threading.stack_size(512*1024*1024)
from engine.harness import *
import os, builtins
N=int(os.environ.get("N","700"))
def print(*a):
    builtins.print(" ".join(str(x) for x in a)[:N])

def main():
    m = importlib.import_module("props." + sys.argv[1])
    ov = {}
    if os.environ.get("FILE"):      # FILE=path under /repo OLD=text NEW=text: analyse an edited copy
        f = os.path.join("/repo", os.environ["FILE"])
        src = open(f).read()
        assert os.environ["OLD"] in src
        k = int(os.environ.get("K", "0"))
        ps = src.split(os.environ["OLD"])
        src = os.environ["OLD"].join(ps[:k + 1]) + os.environ["NEW"] + os.environ["OLD"].join(ps[k + 1:])
        ov[f] = src
    prog = Program(dict(ROOTS), overlay=ov)
    for ob in m.obligations("thorough"):
        if sys.argv[2] in ob.name:
            res = ob.decide(prog)
            print("==", ob.name)
            if hasattr(ob, "ri"):
                for w in ob.want:
                    if w == "effects":
                        [print("  I", k[:80], show(v)) for k, v in effects(ob.ri).items()]; [print("  S", k[:80], show(v)) for k, v in effects(ob.rs).items()]
                    elif w == "result":
                        print("IMPL", result_term(ob.ri)); print("SPEC", result_term(ob.rs))
                    else:
                        print(w, "IMPL", loosen(select(ob.ri, ob.impl.pick or w))); print(w, "SPEC", loosen(select(ob.rs, ob.spec.pick or w)))
            for a, s, d in res:
                print(a, s)
                for x in d[:6]: print("     ", x[3], x[0], "\n         ", x[1][:400], "\n         ", x[2][:400])
t = threading.Thread(target=main); t.start(); t.join()
