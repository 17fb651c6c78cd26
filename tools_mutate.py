"""mutation probe of the checks themselves: python3-vt tools_mutate.py PROP [max] -> which single-point source changes each property notices"""
import sys, importlib, threading, ast, copy, os, random
from multiprocessing import Pool
sys.path.insert(0, "/verif"); sys.setrecursionlimit(20000)
from engine.harness import *
import engine.harness as H

CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Mult], ast.Mod: [ast.Mult], ast.BitAnd: [ast.BitOr], ast.Pow: [ast.Mult]}


def sites(fn):
    out = []
    def walk(n, path):
        out.append((n, path))
        for f, v in ast.iter_fields(n):
            if f in ("annotation", "returns", "decorator_list"):
                continue
            if isinstance(v, list):
                for i, x in enumerate(v):
                    if isinstance(x, ast.AST):
                        walk(x, path + [(f, i)])
            elif isinstance(v, ast.AST):
                walk(v, path + [(f, None)])
    for i, b in enumerate(fn.body):
        if isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant):
            continue
        walk(b, [("body", i)])
    return out


def getp(r, path):
    for f, i in path:
        r = getattr(r, f)
        if i is not None:
            r = r[i]
    return r


def setp(r, path, v):
    p = getp(r, path[:-1])
    f, i = path[-1]
    if i is None:
        setattr(p, f, v)
    else:
        getattr(p, f)[i] = v


def mutants(fn):
    names = sorted({n.id for n, _ in sites(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)})
    for n, path in sites(fn):
        def m(new, why):
            f = copy.deepcopy(fn)
            setp(f, path, new)
            return (f, "%s @%d: %s" % (why, getattr(n, "lineno", 0), ast.unparse(new)[:70]))
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                yield m(ast.Constant(not n.value), "bool")
            elif isinstance(n.value, (int, float)):
                yield m(ast.Constant(n.value + 1), "const")
            elif isinstance(n.value, str) and n.value and path[-1][0] != "value":
                yield m(ast.Constant(n.value + "_"), "str")
            elif isinstance(n.value, str) and n.value and not isinstance(getp(fn, path[:-1]), ast.Expr):
                yield m(ast.Constant(n.value + "_"), "str")
        elif isinstance(n, ast.Compare):
            for o in CMP.get(type(n.ops[0]), []):
                yield m(ast.Compare(n.left, [o()], n.comparators), "cmp")
        elif isinstance(n, ast.BinOp):
            for o in BIN.get(type(n.op), []):
                yield m(ast.BinOp(n.left, o(), n.right), "bin")
        elif isinstance(n, ast.BoolOp):
            yield m(ast.BoolOp(ast.Or() if isinstance(n.op, ast.And) else ast.And(), n.values), "boolop")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            yield m(n.operand, "unary")
        elif isinstance(n, (ast.If, ast.While)):
            f = copy.deepcopy(fn); getp(f, path).test = ast.UnaryOp(ast.Not(), n.test)
            yield f, "negate @%d: %s" % (n.lineno, ast.unparse(n.test)[:70])
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            if isinstance(n, ast.Expr) and "print" in ast.unparse(n)[:6]:
                continue
            yield m(ast.copy_location(ast.Pass(), n), "drop %s" % ast.unparse(n)[:50])
        if isinstance(n, ast.Break):
            yield m(ast.Pass(), "drop break"); yield m(ast.Continue(), "brk")
        if isinstance(n, ast.Continue):
            yield m(ast.Pass(), "drop continue")
        if isinstance(n, ast.Call) and len(n.args) >= 2:
            f = copy.deepcopy(fn); c = getp(f, path); c.args[0], c.args[1] = c.args[1], c.args[0]
            yield f, "swap args @%d: %s" % (n.lineno, ast.unparse(c)[:70])
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            s = n.slice
            if s.lower is not None and not isinstance(s.lower, ast.Constant):
                yield m(ast.Subscript(n.value, ast.Slice(ast.BinOp(s.lower, ast.Add(), ast.Constant(1)), s.upper, s.step), n.ctx), "lo+1")
            if s.upper is not None and not isinstance(s.upper, ast.Constant):
                yield m(ast.Subscript(n.value, ast.Slice(s.lower, ast.BinOp(s.upper, ast.Sub(), ast.Constant(1)), s.step), n.ctx), "hi-1")
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == "self":
            others = sorted({x.attr for x, _ in sites(fn) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" and x.attr != n.attr and not isinstance(x.ctx, ast.Store)})
            if others:
                yield m(ast.Attribute(n.value, others[(len(path)) % len(others)], n.ctx), "attr")
        if os.environ.get("NAMES") and isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and len(names) > 1 and n.id in names and path[-1][0] not in ("func",) and n.id not in ("np", "os", "self", "range", "len", "float", "int"):
            o = [x for x in names if x != n.id and x not in ("np", "os", "range", "len", "float", "int", "enumerate", "zip", "self", "list", "str", "open")]
            if o:
                yield m(ast.Name(o[(n.lineno + n.col_offset) % len(o)], n.ctx), "name %s" % n.id)


def work(job):
    path, src, obidx, label = job
    box = []

    def run():
        prog = Program(dict(ROOTS), overlay={path: src})
        st, why = "equal", ""
        for i in obidx:
            ob = G["obs"][i]
            try:
                with H.limit(20):
                    res = ob.decide(prog)
            except H.TimeUp:
                res = [("", "undecided", [("timeout", "", "", "")])]
            except H.Missing:
                res = [("", "differ", [])]
            except Exception as e:
                res = [("", "undecided", [("exc %r" % e,)])]
            ss = [x[1] for x in res]
            if "differ" in ss:
                st = "differ"; break
            if "undecided" in ss and st == "equal":
                st = "undecided"
                why = "; ".join(d[0] for d in [x for x in res if x[1] == "undecided"][0][2][:3])[:100]
        box.append((st, why))
    t = threading.Thread(target=run); t.start(); t.join()
    return label, box[0] if box else ("error", "")


G = {}


def main():
    cap = int(os.environ.get("CAP", "400"))
    only = os.environ.get("ONLY", "")
    hist = {}
    for pid in sys.argv[1:]:
        m = importlib.import_module("props." + pid)
        obs = G["obs"] = m.obligations("quick")
        base = Program(dict(ROOTS))
        vis = {}

        def b():
            for i, ob in enumerate(obs):
                try:
                    ob.decide(base)
                except Exception as e:
                    print("base", ob.name, e); continue
                for v in ob.visited:
                    vis.setdefault(v, []).append(i)
        t = threading.Thread(target=b); t.start(); t.join()
        rnd = random.Random(int(os.environ.get("VERIF_SEED", "1")))
        jobs = []

        def find(body, parts):
            for s in body:
                if isinstance(s, (ast.ClassDef, ast.FunctionDef)) and s.name == parts[0]:
                    r = s if len(parts) == 1 else find(s.body, parts[1:])
                    if r is not None:
                        return r
        for v in sorted(vis):
            mod, qn = v.split(":")
            if only and only not in v:
                continue
            M = base.module(mod)
            node = find(M.tree.body, qn.split("."))
            if not isinstance(node, ast.FunctionDef):
                continue
            for f, why in mutants(node):
                jobs.append((v, M, node, f, why))
        rnd.shuffle(jobs)
        jobs = jobs[:cap]
        jobs.sort(key=lambda j: j[0])
        todo = []
        for v, M, node, f, why in jobs:
            t2 = copy.deepcopy(M.tree)

            def repl(body, orig):
                for i, s in enumerate(orig):
                    if s is node:
                        body[i] = ast.fix_missing_locations(f)
                        return True
                    if isinstance(s, ast.ClassDef) and repl(body[i].body, s.body):
                        return True
            repl(t2.body, M.tree.body)
            try:
                src = ast.unparse(t2); compile(src, "x", "exec")
            except Exception:
                continue
            todo.append((M.path, src, vis[v][:int(os.environ.get("OBS", "60"))], v.split(":")[1] + " | " + why))
        tot = {}
        with Pool(8) as p:
            for label, (st, why) in p.imap(work, todo, 4):
                tot[st] = tot.get(st, 0) + 1
                if st != "differ" and os.environ.get("SHOW", st)[:3] == st[:3]:
                    print("%-9s %s   {%s}" % (st, label, why))
                if st == "undecided":
                    k = why.split(";")[0]
                    hist[k] = hist.get(k, 0) + 1
        print(pid, tot, flush=True)
    for k, n in sorted(hist.items(), key=lambda kn: -kn[1])[:60]:
        print("   %4d %s" % (n, k))


threading.stack_size(512 * 1024 * 1024)
if __name__ == "__main__":
    main()
