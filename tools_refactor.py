"""quietness probe of the checks themselves: python3-vt tools_refactor.py PROP... -> behaviour-preserving rewrites that are not decided 'equal'"""
import sys, importlib, threading, ast, copy, os
from multiprocessing import Pool
sys.path.insert(0, "/verif"); sys.setrecursionlimit(20000)
from engine.harness import *
import engine.harness as H

L, Sx = ast.Load(), ast.Store()
nm = lambda s: ast.Name(s, L)
st = lambda s: ast.Name(s, Sx)
call = lambda f, *a: ast.Call(nm(f), list(a), [])


def stores(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}


def loads(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}


class Base(ast.NodeTransformer):
    def __init__(self, k=None):
        self.k, self.n, self.cnt = k, 0, 0

    def hit(self):
        self.n += 1
        return self.k is None or self.n - 1 == self.k

    def fresh(self, b="tmp"):
        self.cnt += 1
        return "%s_%d_" % (b, self.cnt)

    def visit_FunctionDef(self, n):
        if getattr(self, "top", None) is None:
            self.top = n
            n.body = self.block(n.body)
        return n
    def visit_Lambda(self, n):
        return n

    def block(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            out += r if isinstance(r, list) else [r]
        return out


class IndexLoop(Base):
    "for x in seq -> for i in range(len(seq)): x = seq[i]"
    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, (ast.Name, ast.Attribute)) and isinstance(n.target, ast.Name) and not n.orelse and self.hit() and not (isinstance(n.iter, ast.Name) and n.iter.id in stores(n)):
            i, s = self.fresh("ix"), self.fresh("sq")
            return [ast.Assign([st(s)], call("list", n.iter)), ast.For(st(i), call("range", call("len", nm(s))), [ast.Assign([n.target], ast.Subscript(nm(s), nm(i), L))] + n.body, [])]
        return n


class EnumLoop(Base):
    "for i in range(len(x)) / for v in x  -> for i, v in enumerate(x)"
    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.target, ast.Name) and not n.orelse and self.hit():
            return ast.For(ast.Tuple([st(self.fresh("unused")), n.target], Sx), call("enumerate", n.iter), n.body, [])
        return n


class WhileLoop(Base):
    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == "range" and len(n.iter.args) == 1 and isinstance(n.target, ast.Name) and not any(isinstance(x, (ast.Continue, ast.Break)) for x in ast.walk(n)) and self.hit():
            i = self.fresh("w")
            e = self.fresh("e")
            return [ast.Assign([st(e)], n.iter.args[0]), ast.Assign([st(i)], ast.Constant(0)),
                    ast.While(ast.Compare(nm(i), [ast.Lt()], [nm(e)]), [ast.Assign([n.target], nm(i))] + n.body + [ast.AugAssign(st(i), ast.Add(), ast.Constant(1))], [])]
        return n


class FlipIf(Base):
    def visit_If(self, n):
        self.generic_visit(n)
        if self.hit():
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse or [ast.Pass()], n.body)
        return n


class FlipIfExp(Base):
    def visit_IfExp(self, n):
        self.generic_visit(n)
        if self.hit():
            return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n


class NegCmp(Base):
    N = {ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.Compare) and len(n.test.ops) == 1 and self.hit():
            n.test = ast.UnaryOp(ast.Not(), ast.Compare(n.test.left, [self.N[type(n.test.ops[0])]()], n.test.comparators))
        return n


class SwapCmp(Base):
    N = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.N and self.hit():
            return ast.Compare(n.comparators[0], [self.N[type(n.ops[0])]()], [n.left])
        return n


class TempArgs(Base):
    "introduce temporaries for call arguments (left to right) of expression statements / assignments"
    def doit(self, n):
        pre = []
        c = n.value
        if isinstance(c, ast.Call) and self.hit():
            if isinstance(c.func, ast.Name) and c.func.id == "super":
                return n
            for i, a in enumerate(c.args):
                if not isinstance(a, (ast.Starred, ast.Constant, ast.Name)):
                    t = self.fresh("arg")
                    pre.append(ast.Assign([st(t)], a)); c.args[i] = nm(t)
            for k in c.keywords:
                if k.arg and not isinstance(k.value, (ast.Constant, ast.Name)):
                    t = self.fresh("kw")
                    pre.append(ast.Assign([st(t)], k.value)); k.value = nm(t)
        return pre + [n] if pre else n
    def visit_Assign(self, n): return self.doit(n)
    def visit_Expr(self, n): return self.doit(n)
    def visit_Return(self, n): return self.doit(n) if n.value is not None else n


class TempRet(Base):
    def visit_Return(self, n):
        if n.value is not None and self.hit():
            t = self.fresh("res")
            return [ast.Assign([st(t)], n.value), ast.Return(nm(t))]
        return n


class Helper(Base):
    "extract the right-hand side of an assignment into a local function"
    def visit_Assign(self, n):
        if len(n.targets) == 1 and not isinstance(n.value, (ast.Constant, ast.Name)) and "super" not in ast.unparse(n.value) and not any(isinstance(x, (ast.Yield, ast.Await, ast.NamedExpr)) for x in ast.walk(n.value)) and self.hit():
            f = self.fresh("helper")
            import builtins
            bound = set()
            for x in ast.walk(n.value):
                if isinstance(x, ast.comprehension):
                    bound |= stores(x.target)
                if isinstance(x, ast.Lambda):
                    bound |= {a.arg for a in x.args.args}
            ps = sorted(v for v in loads(n.value) if v in self.locals and v not in bound)
            d = ast.FunctionDef(f, ast.arguments([], [ast.arg(p) for p in ps], None, [], [], None, []), [ast.Return(n.value)], [])
            n.value = ast.Call(nm(f), [nm(p) for p in ps], [])
            return [d, n]
        return n


class Chunk(Base):
    "move the body of a loop iteration into a local function when it assigns nothing used outside"
    def visit_For(self, n):
        self.generic_visit(n)
        if not any(isinstance(x, (ast.Continue, ast.Break, ast.Return, ast.FunctionDef)) for x in ast.walk(n)) and not n.orelse:
            ss = set()
            for s in n.body:
                ss |= stores(s)
            outside = self.counts
            inner = {}
            for x in ast.walk(n):
                if isinstance(x, ast.Name):
                    inner[x.id] = inner.get(x.id, 0) + 1
            if all(inner.get(v) == outside.get(v) for v in ss) and not any(isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) for s in n.body for x in ast.walk(s)) and self.hit():
                f = self.fresh("step")
                ps = sorted(stores(n.target))
                d = ast.FunctionDef(f, ast.arguments([], [ast.arg(p) for p in ps], None, [], [], None, []), n.body, [])
                n.body = [ast.Expr(ast.Call(nm(f), [nm(p) for p in ps], []))]
                return [d, n]
        return n


class CompLoop(Base):
    "x = [e for v in s if c] -> loop"
    def doit(self, n, mkres):
        c = n.value
        if isinstance(c, ast.ListComp) and len(c.generators) == 1 and self.hit():
            t = self.fresh("acc")
            g = c.generators[0]
            body = [ast.Expr(ast.Call(ast.Attribute(nm(t), "append", L), [c.elt], []))]
            for i in reversed(g.ifs):
                body = [ast.If(i, body, [])]
            n.value = nm(t)
            return [ast.Assign([st(t)], ast.List([], L)), ast.For(g.target, g.iter, body, []), n]
        return n
    def visit_Assign(self, n): return self.doit(n, None)
    def visit_Return(self, n): return self.doit(n, None)


class LoopComp(Base):
    "acc = []; for v in s: [stmts]; acc.append(e)  -> comprehension when the body is one append"
    def block_(self, body):
        return body
    def visit_For(self, n):
        self.generic_visit(n)
        b = n.body
        if len(b) == 1 and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Call) and isinstance(b[0].value.func, ast.Attribute) and b[0].value.func.attr == "append" and isinstance(b[0].value.func.value, ast.Name) and not n.orelse and self.hit():
            return ast.Expr(ast.Call(ast.Attribute(b[0].value.func.value, "extend", L), [ast.ListComp(b[0].value.args[0], [ast.comprehension(n.target, n.iter, [], 0)])], []))
        if len(b) == 1 and isinstance(b[0], ast.If) and not b[0].orelse and len(b[0].body) == 1 and isinstance(b[0].body[0], ast.Expr) and isinstance(b[0].body[0].value, ast.Call) and isinstance(b[0].body[0].value.func, ast.Attribute) and b[0].body[0].value.func.attr == "append" and isinstance(b[0].body[0].value.func.value, ast.Name) and not n.orelse and self.hit():
            return ast.AugAssign(st(b[0].body[0].value.func.value.id), ast.Add(), ast.ListComp(b[0].body[0].value.args[0], [ast.comprehension(n.target, n.iter, [b[0].test], 0)]))
        return n


class Aug(Base):
    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name) and isinstance(n.op, (ast.Add, ast.Mult, ast.Sub)) and isinstance(n.value, (ast.Constant, ast.Name, ast.BinOp)) and not isinstance(n.value, ast.List) and self.hit():
            return ast.Assign([n.target], ast.BinOp(nm(n.target.id), n.op, n.value))
        return n
    def visit_Assign(self, n):
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.BinOp) and isinstance(n.value.left, ast.Name) and n.value.left.id == n.targets[0].id and isinstance(n.value.right, ast.Constant) and self.hit():
            return ast.AugAssign(n.targets[0], n.value.op, n.value.right)
        return n


class AppendAdd(Base):
    "x.append(e) -> x += [e]"
    def visit_Expr(self, n):
        c = n.value
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "append" and isinstance(c.func.value, ast.Name) and self.hit():
            return ast.AugAssign(st(c.func.value.id), ast.Add(), ast.List([c.args[0]], L))
        return n


class Rename(Base):
    "rename every local"
    def visit_FunctionDef(self, n):
        args = {a.arg for a in ast.walk(n.args) if isinstance(a, ast.arg)}
        glob = {x for s in ast.walk(n) if isinstance(s, (ast.Global, ast.Nonlocal)) for x in s.names}
        ls = stores(n) - args - glob
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in ls:
                x.id = x.id + "_rn"
            if isinstance(x, ast.ExceptHandler) and x.name in ls:
                x.name += "_rn"
        self.n = 1
        return n


class Wrap(Base):
    "guard-clause form: if c: A (last statement, no else) -> if not c: return; A"
    def visit_FunctionDef(self, n):
        if n.body and isinstance(n.body[-1], ast.If) and not n.body[-1].orelse:
            i = n.body[-1]
            n.body = n.body[:-1] + [ast.If(ast.UnaryOp(ast.Not(), i.test), [ast.Return(None)], [])] + i.body
            self.n = 1
        return n


class ElseRet(Base):
    "if c: ...return  ; rest -> if c: ... else: rest"
    def visit_FunctionDef(self, n):
        for j, s in enumerate(n.body[:-1]):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)):
                s.orelse = n.body[j + 1:]
                n.body = n.body[:j + 1]
                self.n = 1
                break
        return n


class FStr(Base):
    "f-string <-> format"
    def visit_JoinedStr(self, n):
        if all(isinstance(v, ast.Constant) or (v.conversion == -1 and v.format_spec is None) for v in n.values) and self.hit():
            s = "".join(v.value.replace("{", "{{").replace("}", "}}") if isinstance(v, ast.Constant) else "{}" for v in n.values)
            return ast.Call(ast.Attribute(ast.Constant(s), "format", L), [v.value for v in n.values if not isinstance(v, ast.Constant)], [])
        return n
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "format" and isinstance(n.func.value, ast.Constant) and not n.keywords and "%" not in n.func.value.value and n.func.value.value.count("{") == n.func.value.value.count("{}") == len(n.args) and self.hit():
            return ast.BinOp(ast.Constant(n.func.value.value.replace("{}", "%s")), ast.Mod(), ast.Tuple(n.args, L))
        return n


class Comm(Base):
    "a + b -> b + a for things that look numeric: only for products and sums with numeric constants"
    def visit_BinOp(self, n):
        self.generic_visit(n)
        num = lambda x: isinstance(x, ast.Constant) and isinstance(x.value, (int, float))
        if isinstance(n.op, ast.Add) and (num(n.left) or num(n.right)) and self.hit():
            return ast.BinOp(n.right, n.op, n.left)
        return n


class Reorder(Base):
    "swap adjacent independent assignments to plain names"
    def visit_FunctionDef(self, n):
        def blk(body):
            j = 0
            while j + 1 < len(body):
                a, b = body[j], body[j + 1]
                if isinstance(a, ast.Assign) and isinstance(b, ast.Assign) and all(isinstance(t, (ast.Name, ast.Attribute)) for t in a.targets + b.targets):
                    ta = {ast.unparse(t) for t in a.targets}; tb = {ast.unparse(t) for t in b.targets}
                    ub = ast.unparse(b.value); ua = ast.unparse(a.value)
                    pure = not any(isinstance(x, ast.Call) for x in list(ast.walk(a.value)) + list(ast.walk(b.value)))
                    if pure and not any(t in ub for t in ta) and not any(t in ua for t in tb) and not (ta & tb) and self.hit():
                        body[j], body[j + 1] = b, a
                        j += 1
                j += 1
            for s in body:
                for f in ("body", "orelse"):
                    if getattr(s, f, None) and isinstance(getattr(s, f), list):
                        blk(getattr(s, f))
        blk(n.body)
        return n


class KwPos(Base):
    "range(n) -> range(0, n); open(p, 'r') -> open(p)"
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "range" and len(n.args) == 1 and self.hit():
            n.args = [ast.Constant(0)] + n.args
        return n


class Npify(Base):
    "len(x) == 0 <-> not x is not generally safe; np.sum(x) etc. left alone; str.join for sums etc."
    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.slice, ast.Slice) and n.slice.lower is None and n.slice.upper is not None and n.slice.step is None and isinstance(n.ctx, ast.Load) and self.hit():
            n.slice = ast.Slice(ast.Constant(0), n.slice.upper, None)
        return n


class SelfLocal(Base):
    "read self.x into a local at the top when the function does not assign it"
    def visit_FunctionDef(self, n):
        if not (n.args.args and n.args.args[0].arg == "self") or n.name == "__init__":
            return n
        stored = {x.attr for x in ast.walk(n) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)}
        called = {x.func.attr for x in ast.walk(n) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)}
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == "self" for x in ast.walk(n)):
            return n
        at = sorted({x.attr for x in ast.walk(n) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" and x.attr not in stored | called})
        # only when read unconditionally at top level
        first = [a for a in at if any(a in [y.attr for y in ast.walk(s) if isinstance(y, ast.Attribute)] for s in n.body[:2] if not isinstance(s, (ast.If, ast.For, ast.Try, ast.While)))]
        if not first:
            return n
        a = first[0]
        class R(ast.NodeTransformer):
            def visit_Attribute(s, x):
                s.generic_visit(x)
                if x.attr == a and isinstance(x.value, ast.Name) and x.value.id == "self" and isinstance(x.ctx, ast.Load):
                    return nm("loc_" + a)
                return x
        n.body = [R().visit(s) for s in n.body]
        k = 1 if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
        n.body.insert(k, ast.Assign([st("loc_" + a)], ast.Attribute(nm("self"), a, L)))
        self.n = 1
        return n


class Method(Base):
    "placeholder: whole body moved into a nested function and called"
    def visit_FunctionDef(self, n):
        if any(isinstance(x, (ast.Yield, ast.Nonlocal, ast.Global)) for x in ast.walk(n)) or "super()" in ast.unparse(n):
            return n
        args = {a.arg for a in n.args.args}
        if any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in args for x in ast.walk(n)):
            return n
        d = ast.FunctionDef("impl_", ast.arguments([], [], None, [], [], None, []), n.body, [])
        n.body = [d, ast.Return(ast.Call(nm("impl_"), [], []))]
        self.n = 1
        return n


KINDS = [IndexLoop, EnumLoop, WhileLoop, FlipIf, FlipIfExp, NegCmp, SwapCmp, TempArgs, TempRet, Helper, Chunk, CompLoop, LoopComp, Aug, AppendAdd, Rename, Wrap, ElseRet, FStr, Comm, Reorder, KwPos, Npify, SelfLocal, Method]


def find(body, parts):
    for s in body:
        if isinstance(s, (ast.ClassDef, ast.FunctionDef)) and s.name == parts[0]:
            r = s if len(parts) == 1 else find(s.body, parts[1:])
            if r is not None:
                return r


def prep(tr, f):
    tr.locals = stores(f) | {a.arg for a in ast.walk(f.args) if isinstance(a, ast.arg)}
    c = {}
    for x in ast.walk(f):
        if isinstance(x, ast.Name):
            c[x.id] = c.get(x.id, 0) + 1
    tr.counts = c
    return tr


G = {}


def work(job):
    path, src, obidx, label = job
    out = []
    res_box = []
    def run():
        prog = Program(dict(ROOTS), overlay={path: src})
        worst, why = "equal", ""
        for i in obidx:
            ob = G["obs"][i]
            try:
                with H.limit(20):
                    res = ob.decide(prog)
            except H.TimeUp:
                res = [("", "undecided", [("timeout", "", "", "")])]
            except H.Missing as e:
                res = [("", "differ", [("missing", "", "", "")])]
            except Exception as e:
                res = [("", "undecided", [("exc %r" % e,)])]
            for x in res:
                if x[1] == "differ":
                    worst, why = "differ", "%s: %s" % (ob.name, "; ".join("%s | %s | %s" % d[:3] for d in x[2][:2])[:300]); break
                if x[1] == "undecided" and worst == "equal":
                    worst, why = "undecided", "%s: %s" % (ob.name, "; ".join(d[0] for d in x[2][:3])[:160])
            if worst == "differ":
                break
        res_box.append((worst, why))
    t = threading.Thread(target=run); t.start(); t.join()
    return label, res_box[0] if res_box else ("error", "")


def main():
    per = os.environ.get("SITES")
    only = os.environ.get("ONLY", "")
    for pid in sys.argv[1:]:
        m = importlib.import_module("props." + pid)
        obs = m.obligations("quick")
        G["obs"] = obs
        base = Program(dict(ROOTS))
        vis = {}
        def b():
            for i, ob in enumerate(obs):
                try:
                    ob.decide(base)
                except Exception as e:
                    print("base", ob.name, e); continue
                for v in ob.visited:
                    vis.setdefault(v, []).append(i)
        t = threading.Thread(target=b); t.start(); t.join()
        jobs = []
        for v in sorted(vis):
            mod, qn = v.split(":")
            if only and only not in v:
                continue
            M = base.module(mod)
            node = find(M.tree.body, qn.split("."))
            if not isinstance(node, ast.FunctionDef):
                continue
            for K in KINDS:
                ks = [None] if not per else range(40)
                for k in ks:
                    t2 = copy.deepcopy(M.tree)
                    f = find(t2.body, qn.split("."))
                    before = ast.dump(f)
                    tr = prep(K(k), f)
                    try:
                        tr.visit(f)
                    except Exception as e:
                        print("tx", K.__name__, qn, e); break
                    if ast.dump(f) == before:
                        break
                    ast.fix_missing_locations(t2)
                    try:
                        src = ast.unparse(t2); compile(src, "x", "exec")
                    except Exception as e:
                        print("bad", K.__name__, qn, e); break
                    lim = [i for i in vis[v]][:int(os.environ.get("OBS", "60"))]
                    jobs.append((M.path, src, lim, "%s %s %s" % (K.__name__, v.split(".")[-2] + "." + v.split(".")[-1] if "." in v else v, "" if k is None else k)))
        tot = {}
        with Pool(8) as p:
            for label, (s, why) in p.imap(work, jobs, 4):
                tot[s] = tot.get(s, 0) + 1
                if s != "equal":
                    print("%-9s %s   {%s}" % (s, label, why))
        print(pid, tot, flush=True)


threading.stack_size(512 * 1024 * 1024)
if __name__ == "__main__":
    main()
