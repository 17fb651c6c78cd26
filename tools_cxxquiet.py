"""Behaviour-preserving edits of the C++ sources (quiet/cxx_*.txt) must leave the rules quiet: python3-vt tools_cxxquiet.py [PROP...]
Block format:  @@ PROP path-under-repo [label]\n<old>\n====\n<new>   (several old/new pairs separated by a line '&&&&')"""
import sys, re, os, glob, importlib, threading, multiprocessing
sys.path.insert(0, "/verif"); sys.setrecursionlimit(20000); threading.stack_size(512 * 1024 * 1024)
from engine.harness import *


def blocks():
    for f in sorted(glob.glob("/verif/quiet/cxx_*.txt")):
        for b in open(f).read().split("\n@@ ")[0:]:
            b = b[3:] if b.startswith("@@ ") else b
            if not b.strip():
                continue
            head, body = b.split("\n", 1)
            w = head.split(None, 2)
            yield w[0].split(","), w[1], w[2] if len(w) > 2 else "", body


def work(a):
    prop, path, label, body = a
    res = []

    def main():
        f = os.path.join("/repo", path)
        s = open(f).read()
        for pair in body.split("\n&&&&\n"):
            old, new = (pair + "\n").split("\n====\n")
            old, new = old.strip("\n"), new.strip("\n")
            pat = r"\s+".join(re.escape(w) for w in old.split())
            hits = list(re.finditer(pat, s))
            if len(hits) != 1:
                res.append(("BADEDIT %d" % len(hits), old[:60]))
                return
            s = s[:hits[0].start()] + new + s[hits[0].end():]
        prog = Program(dict(ROOTS), overlay={f: s})
        P = importlib.import_module("props." + prop)
        cnt, why = {}, []
        for ob in P.obligations("quick"):
            try:
                with limit(30):
                    r = ob.decide(prog)
            except BaseException as e:
                r = [("x", "undecided:" + repr(e)[:200], [])]
            for x in r:
                cnt[x[1]] = cnt.get(x[1], 0) + 1
                if x[1] != "equal":
                    why.append((ob.name, x[1], str(x[2])[:300]))
        if getattr(prog, "cxxerror", None):
            cnt["nocompile"] = prog.cxxerror[-300:]
        res.append((cnt, why))
    t = threading.Thread(target=main); t.start(); t.join()
    return prop, label, res[0] if res else ("crash", "")


if __name__ == "__main__":
    jobs = [(p, path, lab, body) for ps, path, lab, body in blocks() for p in ps if (not sys.argv[1:] or p in sys.argv[1:]) and os.environ.get("ONLY", "") in lab]
    with multiprocessing.Pool(7, maxtasksperchild=2) as pool:
        for p, lab, (cnt, why) in pool.imap(work, jobs):
            bad = not isinstance(cnt, dict) or set(cnt) - {"equal"}
            print("%s %-40s %s" % (p, lab, cnt), flush=True)
            if bad:
                for w in (why if isinstance(why, list) else [why])[:3]:
                    print("      ", w)
