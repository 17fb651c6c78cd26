"""Mutation testing of the C++ rules: python3-vt tools_cxxmut.py PROP path/under/repo [first-last] (env CAP, SEED, SKIP=substring of obligations to leave out)"""
import sys, re, os, random, importlib, threading, multiprocessing
sys.path.insert(0, "/verif"); sys.setrecursionlimit(20000); threading.stack_size(512 * 1024 * 1024)
from engine.harness import *


def mutants(lines, lo, hi):
    out = []
    for n in range(lo, hi):
        t = lines[n]
        code = t.split("//")[0]
        if not code.strip() or code.strip().startswith(("*", "/*", "#", "template", "printf", "free", "for (int ii=0; ii<3; ii++) free")) or "printf" in code or "free(" in code or "malloc" in code:
            continue
        if re.match(r"\s*(const\s+|static\s+|void|int|CoordType|bool|double|Structure|std::).*\)\s*(const)?\s*[{;]\s*$", code) and "=" not in code and not code.strip().startswith(("for", "if", "while", "return", "this")):
            continue
        for pat, subs in ((r"(?<![+\w])\+(?![+=])", ["-"]), (r"(?<=[\w\)\]] )-(?![-=>])", ["+"]), (r"\[0\]", ["[1]"]), (r"\[1\]", ["[2]", "[0]"]), (r"\[2\]", ["[1]"]), (r"(?<![<\w])<(?![<=\w])|(?<=[a-z])<(?=[a-z0-9])", ["<="]), (r">=", [">"]), (r"<=", ["<"]), (r"==", ["!="]), (r"!=", ["=="]), (r"\b2\b", ["3"]), (r"\b3\b", ["2"]), (r"\b1\b", ["2", "0"]), (r"(?<=[=(]\s)0\b", ["1"]), (r"\*(?=\s)", ["+"]), (r"(?<=\s)/(?=\s)", ["*"]), (r"&&", ["||"]), (r"\bii\b", ["jj"]), (r"\bjj\b", ["ii"]), (r"\+=", ["-=", "="])):
            for m in re.finditer(pat, code):
                if "for" in code.split("(")[0] and pat.startswith(r"\bii"):
                    continue
                for s in subs:
                    out.append((n, t[:m.start()] + s + t[m.end():]))
        if re.match(r"\s*(this->|\w+\[|\w+ =|\w+ [+*-]=)", code) and code.rstrip().endswith(";"):
            out.append((n, re.match(r"\s*", t).group(0) + ";"))
    return out


def work(a):
    prop, path, n, old, new, skip = a
    res = []

    def main():
        lines = open(path).read().split("\n")
        lines[n] = new
        prog = Program(dict(ROOTS), overlay={path: "\n".join(lines)})
        P = importlib.import_module("props." + prop)
        st = "equal"
        why = ""
        for ob in P.obligations("quick"):
            if any(s and s in ob.name for s in skip):
                continue
            try:
                with limit(40):
                    r = ob.decide(prog)
            except TimeUp:
                st = "undecided"; why = "time " + ob.name
                continue
            except BaseException as e:
                st = "error"; why = repr(e)[:80]
                break
            ss = {x[1] for x in r}
            if "differ" in ss:
                st = "differ"; why = ob.name
                break
            if "undecided" in ss:
                st = "undecided"; why = ob.name
        if getattr(prog, "cxxerror", None):
            st = "nocompile"
        res.append((st, why))
    t = threading.Thread(target=main); t.start(); t.join()
    return (n, old, new) + (res[0] if res else ("crash", ""))


if __name__ == "__main__":
    prop, path = sys.argv[1], os.path.join("/repo", sys.argv[2])
    lines = open(path).read().split("\n")
    lo, hi = 0, len(lines)
    if len(sys.argv) > 3:
        lo, hi = [int(x) for x in sys.argv[3].split("-")]
        lo -= 1
    ms = mutants(lines, lo, hi)
    random.Random(int(os.environ.get("SEED", "1"))).shuffle(ms)
    ms = ms[:int(os.environ.get("CAP", "60"))]
    with multiprocessing.Pool(7, maxtasksperchild=4) as pool:
        cnt = {}
        for n, old, new, st, why in pool.imap_unordered(work, [(prop, path, n, lines[n], new, os.environ.get("SKIP", "").split(",")) for n, new in ms]):
            cnt[st] = cnt.get(st, 0) + 1
            if st in ("equal", "undecided", "error", "crash"):
                print("%-9s %d %s\n     - %s\n     + %s" % (st, n + 1, why, old.strip(), new.strip()), flush=True)
    print(prop, cnt)
