"""hand-written behaviour-preserving rewrites: python3-vt tools_quiet.py [PROP...]
quiet/*.py hold replacement functions:  '#@ PROP path qualname' followed by the new definition"""
import sys, re, ast, copy, importlib, threading, glob
sys.path.insert(0, "/verif"); sys.setrecursionlimit(20000)
from engine.harness import *
import engine.harness as H
from tools_refactor import find
threading.stack_size(512 * 1024 * 1024)


def main():
    want = sys.argv[1:]
    cache = {}
    n = {}
    for f in sorted(glob.glob("/verif/quiet/*.py")):
        txt = open(f).read()
        for blk in re.split(r"^#@ ", txt, flags=re.M)[1:]:
            head, src = blk.split("\n", 1)
            props, path, qn = head.split()[:3]
            full = os.path.join("/repo", path)
            tree = ast.parse(open(full).read())
            new = ast.parse(src).body
            parts = qn.split(".")
            body = tree.body
            for p in parts[:-1]:
                body = [s for s in body if isinstance(s, ast.ClassDef) and s.name == p][0].body
            i = [k for k, s in enumerate(body) if isinstance(s, (ast.FunctionDef, ast.ClassDef)) and s.name == parts[-1]]
            assert i, head
            body[i[0]:i[0] + 1] = new
            code = ast.unparse(ast.fix_missing_locations(tree))
            compile(code, path, "exec")
            for pid in props.split(","):
                if want and pid not in want:
                    continue
                prog = Program(dict(ROOTS), overlay={full: code})
                worst, why = "equal", ""
                obs = importlib.import_module("props." + pid).obligations("quick")
                for ob in obs:
                    try:
                        with H.limit(60):
                            res = ob.decide(prog)
                    except H.TimeUp:
                        res = [("", "undecided", [("timeout",)])]
                    except Exception as e:
                        res = [("", "undecided", [("exc %r" % e,)])]
                    for x in res:
                        if x[1] == "differ":
                            worst, why = "differ", ob.name + ": " + " || ".join("%s | %s | %s" % (d[0], d[1][:150], d[2][:150]) for d in x[2][:2]); break
                        if x[1] == "undecided" and worst == "equal":
                            worst, why = "undecided", ob.name + ": " + "; ".join(d[0] for d in x[2][:3])
                    if worst == "differ":
                        break
                n[worst] = n.get(worst, 0) + 1
                if worst != "equal":
                    print("%-9s %s %s %s  {%s}" % (worst, os.path.basename(f), pid, qn, why[:500]))
    print(n)


t = threading.Thread(target=main); t.start(); t.join()
