"""Abstract interpreter: Python AST -> value-graph terms.

Interprocedural (repository functions are inlined), flow-sensitive, gated:
both arms of every branch are analysed and merged with `ite`; loops are
summarised once (never executed) by solving the recurrences of the slots they
modify.  Values the summaries cannot describe become `fold` terms or `unk`.
"""
import ast
import builtins
from fractions import Fraction
from .terms import *
from . import terms as TT
from . import lib

FALL, RET, BRK, CONT, EXC = (mk("ctl", x) for x in ("fall", "ret", "brk", "cont", "exc"))
MAXDEPTH = 14
QUIETMETH = ("close", "join", "terminate", "flush", "start", "show", "upper", "lower", "strip", "split", "get", "keys", "items", "values", "copy", "index",
             "count", "startswith", "endswith", "format", "seek", "tell", "warn", "info", "debug", "eval", "train", "readline", "read", "readlines", "grid")
FULL = mk("slice", NONE, NONE, NONE)


class State(object):
    __slots__ = ("env", "heap", "trace", "ctl", "ret", "fn")

    def __init__(self, env, heap, trace, fn):
        self.env, self.heap, self.trace, self.fn = env, heap, trace, fn
        self.ctl, self.ret = FALL, NONE

    def copy(self):
        s = State(dict(self.env), dict(self.heap), self.trace, self.fn)
        s.ctl, s.ret = self.ctl, self.ret
        return s

    def become(self, o):
        self.env, self.heap, self.trace, self.ctl, self.ret = o.env, o.heap, o.trace, o.ctl, o.ret


class Effectful(Exception):
    pass


class Closure(object):
    def __init__(self, node, env, mod, cls, name):
        self.node, self.env, self.mod, self.cls, self.name = node, env, mod, cls, name


class Frame(object):
    """static context of the function being analysed"""
    def __init__(self, mod, cls, node, stack, env_outer=None):
        self.mod, self.cls, self.node, self.stack = mod, cls, node, stack
        self.env_outer = env_outer


def terminates(stmts, inloop=False):
    for s in stmts:
        if isinstance(s, (ast.Return, ast.Raise)):
            return True
        if isinstance(s, (ast.Break, ast.Continue)) and not inloop:
            return True
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            continue
        for f in ("body", "orelse", "finalbody"):
            b = getattr(s, f, None)
            if isinstance(b, list) and terminates(b, inloop or isinstance(s, (ast.For, ast.While))):
                return True
        for h in getattr(s, "handlers", []) or []:
            if terminates(h.body, inloop):
                return True
    return False


def merge_cell(c, a, b):
    if a is b:
        return a
    if a.op == b.op and a.op in ("arr", "dmap") and a.args[0] is b.args[0]:
        m = small(c, a, b) if a.op == "arr" else None
        if m is not None:
            return m
        return mk(a.op, a.args[0], ite(c, a.args[1], b.args[1]))
    for x, y, f in ((a, b, False), (b, a, True)):
        # a dictionary that became a map on one branch only
        if x.op == "dmap" and y is x.args[0]:
            t = (x.args[1], EMPTYSEQ)
            return mk("dmap", y, ite(c, *(t if not f else t[::-1])))
        if x.op == "arr" and y is x.args[0]:
            t = (x.args[1], EMPTYSEQ)
            return mk("arr", y, ite(c, *(t if not f else t[::-1])))
    return ite(c, a, b)


_early = {}


def leaves_early(body):
    k = id(body)
    if k not in _early:
        _early[k] = (1 if any(isinstance(n, (ast.Break, ast.Return, ast.Continue)) for b in body for n in ast.walk(b)) else 0, body)
    return _early[k][0]


def constish(x):
    """no symbolic input below"""
    return not any(t.op in ("sym", "unk", "fv") for t in subterms(x))


def freshlist(v):
    """a list nobody else holds"""
    while v.op == "sub":
        v = v.args[0]
    return v.op == "lines" or v.op == "meth" and v.args[1] in ("split", "splitlines", "tolist", "to_list", "readlines") or v.op == "call" and v.args[0] == "tolist"


class Interp(object):
    def __init__(self, prog, opaque=(), strict=False):
        self.prog = prog
        self.faults = {}
        self.rowled = {}
        self.opaque = set(x if isinstance(x, str) else x[0] for x in opaque)
        self.stub = dict(x for x in opaque if not isinstance(x, str))
        self.closures = {}
        self.lamming = set()
        self.asserting = False      # failing assertions count as exceptions
        self.missed = set()         # names read before any assignment
        self.nloc = [0]
        self.visited = set()        # qualified names of functions inlined
        self.modenv = {}
        self.classattr = {}
        self.externals = set()
        self.budget = 400000
        self.tryvals = []
        self.pools = []             # worker counts of the process pools created

    # -------------------------------------------------- refs
    def ref(self, r):
        if r is None:
            return None
        k = r[0]
        if k == "func":
            return mk("ref", "func", r[1].name + ":" + r[2].name)
        if k == "class":
            return mk("ref", "class", r[1].name + ":" + r[2].name)
        if k == "module":
            return mk("ref", "module", r[1])
        if k == "ext":
            return mk("ref", "ext", lib.canon(r[1]))
        if k == "var":
            return self.modvar(r[1], r[2])
        return None

    def modvar(self, m, name):
        env = self.modenv.get(m.name)
        if env is None:
            fr = Frame(m, None, None, ())
            st = State({}, {}, EMPTYSEQ, fr)
            self.modenv[m.name] = st
            body = [s for s in m.tree.body if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.For, ast.Expr, ast.If))]
            try:
                self.exec_block(body, st)
            except RecursionError:
                pass
            env = st
        v = env.env.get(name)
        if v is None:
            return mk("ref", "ext", m.name + "." + name)
        return self.deref(v, env)

    def find_class(self, qual):
        mod, name = qual.split(":")
        m = self.prog.module(mod)
        if m is None:
            return None
        cur = m.tree.body
        node = None
        for part in name.split("."):
            node = None
            for s in ast.walk(ast.Module(cur, [])) if False else cur:
                if isinstance(s, ast.ClassDef) and s.name == part:
                    node = s
            if node is None:
                for s in cur:
                    for f in ("body", "orelse"):
                        for q in getattr(s, f, []) or []:
                            if isinstance(q, ast.ClassDef) and q.name == part:
                                node = q
            if node is None:
                return None
            cur = node.body
        return (m, node)

    def mro(self, qual):
        """list of ('repo', qual, mod, node) / ('ext', dotted) — linear, left-to-right DFS"""
        out = []
        c = self.find_class(qual)
        if c is None:
            return [("ext", qual)]
        m, node = c
        out.append(("repo", qual, m, node))
        for b in node.bases:
            r = self.static(m, b)
            if r is not None and r.op == "ref" and r.args[0] == "class":
                for e in self.mro(r.args[1]):
                    if e not in out:
                        out.append(e)
            else:
                nm = r.args[1] if r is not None and r.op == "ref" else ast.unparse(b)
                out.append(("ext", nm))
        return out

    def static(self, m, node):
        """resolve a Name/Attribute expression at module level"""
        if isinstance(node, ast.Name):
            r = self.prog.resolve(m.name, node.id)
            if r is None:
                return mk("ref", "ext", lib.canon("builtins." + node.id))
            if r[0] == "var":
                return None
            return self.ref(r)
        if isinstance(node, ast.Attribute):
            b = self.static(m, node.value)
            if b is not None and b.op == "ref":
                return self.ref_attr(b, node.attr)
        return None

    def ref_attr(self, b, name):
        k, q = b.args
        if k == "module":
            if self.prog.owns(q):
                r = self.prog.resolve(q, name)
                if r is not None:
                    return self.ref(r)
                return mk("ref", "ext", q + "." + name)
            return mk("ref", "ext", lib.canon(q + "." + name))
        if k == "ext":
            return mk("ref", "ext", lib.canon(q + "." + name))
        return None

    def method(self, qual, name):
        """find method/attr in class: -> (kind, ownerqual, mod, node) or None"""
        setter = name.endswith("@set")
        if setter:
            name = name[:-4]
        for e in self.mro(qual):
            if e[0] == "ext":
                continue
            _, q, m, node = e
            for s in reversed(node.body):
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)) and s.name == name:
                    if setter != any(isinstance(d, ast.Attribute) and d.attr == "setter" for d in s.decorator_list):
                        continue
                    kind = "method"
                    for d in s.decorator_list:
                        dn = d.id if isinstance(d, ast.Name) else (d.attr if isinstance(d, ast.Attribute) else "")
                        if dn == "staticmethod":
                            kind = "static"
                        elif dn == "classmethod":
                            kind = "class"
                        elif dn in ("property", "cached_property"):
                            kind = "property"
                        elif dn in ("abstractmethod", "override", "no_grad"):
                            pass
                    return (kind, q, m, s)
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                    return ("attr", q, m, s.value)
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == name and s.value is not None:
                    return ("attr", q, m, s.value)
                if isinstance(s, ast.ClassDef) and s.name == name:
                    return ("class", q, m, s)
        return None

    # -------------------------------------------------- heap
    def alloc(self, st, content):
        self.nloc[0] += 1
        st.heap[self.nloc[0]] = content
        return mk("loc", self.nloc[0])

    def get(self, st, t):
        """content of a loc (one level), other terms unchanged"""
        if t.op == "loc":
            c = st.heap.get(t.args[0])
            return c if c is not None else t
        if t.op == "ite":
            a, b = self.get(st, t.args[1]), self.get(st, t.args[2])
            if a is not t.args[1] or b is not t.args[2]:
                return ite(t.args[0], a, b)
        return t

    def deref(self, t, st, depth=0):
        if isinstance(t, tuple):
            return tuple(self.deref(x, st, depth) for x in t)
        if not isinstance(t, T):
            return t
        if not _hasloc(t):
            return t
        if depth > 30:
            return unk("cyclic heap")
        if t.op == "loc":
            c = st.heap.get(t.args[0])
            if c is None:
                return t
            return self.clean(self.deref(c, st, depth + 1))
        if t.op == "closure":
            if t.args[0] in self.lamming:
                return unk("recursive closure")
            self.lamming.add(t.args[0])
            try:
                return lib.argterm(self, t, st)
            finally:
                self.lamming.discard(t.args[0])
        if t.op == "obj":
            return mk("obj", t.args[0], tuple((k, self.deref(v, st, depth + 1)) for k, v in t.args[1]))
        return rebuild(t, lambda x: self.deref(x, st, depth + 1))

    def clean(self, c):
        if c.op == "arr" and c.args[1] is EMPTYSEQ:
            return c.args[0]
        if c.op == "arr" and is_nolist(c.args[1]):
            return c.args[0]
        if c.op == "dmap" and (c.args[1] is EMPTYSEQ or is_nolist(c.args[1])):
            return c.args[0]
        if c.op == "dmap" and c.args[0].op == "dict" and not c.args[0].args and c.args[1].op == "fm":
            # a plain copy of a mapping
            n, b = c.args[1].args
            v = fv()
            b = subst(b, {mk("bv", b.height + 1): v})
            if n.op == "len" and b.op == "list" and len(b.args) == 1 and b.args[0].op == "tuple" and b.args[0].args[0] is app("key", n.args[0], v) \
                    and b.args[0].args[1] is index(n.args[0], b.args[0].args[0]):
                return n.args[0]
        if c.op == "empty":
            return mk("list")
        if c.op == "ite":
            return ite(c.args[0], self.clean(c.args[1]), self.clean(c.args[2]))
        return c

    # -------------------------------------------------- classes of values
    def clsof(self, st, t):
        if t.op == "loc":
            c = st.heap.get(t.args[0])
            if c is not None and c.op == "obj":
                return c.args[0]
            return None
        if t.op == "sym" and t.args[1] and t.args[1] != "!":
            return t.args[1]
        if t.op == "obj":
            return t.args[0]
        if t.op == "new":
            return t.args[0]
        if t.op == "cast":
            return t.args[1]
        return None

    # -------------------------------------------------- calls
    @staticmethod
    def unstar(args, need, kwargs):
        """f(*xs): the elements of xs are the arguments f cannot do without"""
        if len(args) and args[-1].op == "star" and not any(a.op == "star" for a in args[:-1]):
            n = len([p for p in need[len(args) - 1:] if p not in kwargs])
            return list(args[:-1]) + [index(args[-1].args[0], num(j)) for j in range(n)]
        return args

    def call_function(self, m, cls, node, args, kwargs, st, selfterm=None, env_outer=None, stack=()):
        qual = m.name + ":" + (cls + "." if cls else "") + getattr(node, "name", "<lambda>")
        if len(stack) >= MAXDEPTH or stack.count(qual) >= 2:
            return app("call", qual, tuple(self.deref(a, st) for a in args), tuple(sorted((k, self.deref(v, st)) for k, v in kwargs.items())))
        self.visited.add(qual)
        a = node.args
        env = {}
        params = [p.arg for p in a.posonlyargs + a.args]
        pos = list(args)
        if selfterm is not None:
            pos = [selfterm] + pos
        fr = Frame(m, cls, node, stack + (qual,), env_outer)
        # defaults
        defaults = dict(zip(params[len(params) - len(a.defaults):], a.defaults))
        for p, dflt in zip(a.kwonlyargs, a.kw_defaults):
            if dflt is not None:
                defaults[p.arg] = dflt
        kw = dict(kwargs)
        star = None
        if any(x.op == "star" for x in pos):
            newpos = []
            for x in pos:
                if x.op == "star":
                    y = self.deref(x.args[0], st)
                    if y.op in ("list", "tuple"):
                        newpos.extend(y.args)
                    else:
                        # symbolic star: index elements
                        for j in range(len(params) - len(newpos)):
                            newpos.append(index(y, num(j)))
                else:
                    newpos.append(x)
            pos = newpos
        for i, p in enumerate(params):
            if i < len(pos):
                env[p] = pos[i]
        if a.vararg:
            env[a.vararg.arg] = mk("tuple", *pos[len(params):])
        for p in params + [x.arg for x in a.kwonlyargs]:
            if p in kw and p not in env:
                env[p] = kw.pop(p)
        if a.kwarg:
            env[a.kwarg.arg] = self.alloc(st, mk("dict", *[(string(k), v) for k, v in kw.items()]))
        for p in params + [x.arg for x in a.kwonlyargs]:
            if p not in env:
                if p in defaults:
                    sub_st = State({}, st.heap, st.trace, Frame(m, cls, None, stack))
                    env[p] = self.ev(defaults[p], sub_st)
                    st.heap = sub_st.heap
                else:
                    env[p] = mk("missingarg", p)
        s2 = State(env, st.heap, st.trace, fr)
        if isinstance(node, ast.Lambda):
            v = self.ev(node.body, s2)
            st.heap, st.trace = s2.heap, s2.trace
            if s2.ctl is not FALL:
                self.raise_into(st, s2)
            return v
        self.exec_block(node.body, s2)
        st.heap, st.trace = s2.heap, s2.trace
        # outcome
        if s2.ctl is FALL:
            return NONE
        if s2.ctl is RET:
            return s2.ret
        # mixed
        excc = ctl_cond(s2.ctl, (EXC,))
        retc = ctl_cond(s2.ctl, (RET,))
        if excc is TRUE:
            st.ctl, st.ret = EXC, s2.ret
            return mk("bottom")
        val = ite(retc, s2.ret, NONE)
        if excc is not FALSE:
            val = restrict_bool(val, excc, False)
            st.ctl = ite(excc, EXC, st.ctl)
            st.ret = ite(excc, restrict_bool(s2.ret, excc, True), st.ret)
        return val

    def raise_into(self, st, s2):
        excc = ctl_cond(s2.ctl, (EXC,))
        if excc is not FALSE:
            st.ctl = ite(excc, EXC, st.ctl)
            st.ret = ite(excc, s2.ret, st.ret)

    def instantiate_class(self, qual, args, kwargs, st, stack):
        init = self.method(qual, "__init__")
        if qual in self.opaque or qual.split(":")[1] in self.opaque:
            args, kwargs = list(args), dict(kwargs)
            if init is not None:
                ps = [p.arg for p in init[3].args.args][1:]
                args = self.unstar(args, ps[:len(ps) - len(init[3].args.defaults)], kwargs)
                for p, a in zip(ps, args):
                    kwargs[p] = a
                args = args[len(ps):]
            return app("new", qual, tuple(self.deref(x, st) for x in args), tuple(sorted((k, self.deref(v, st)) for k, v in kwargs.items())))
        if init is None or init[0] != "method":
            mro = self.mro(qual)
            if any(e[0] == "ext" and not e[1].split(".")[-1] in ("object", "ABC") for e in mro):
                a = tuple(self.deref(x, st) for x in args)
                return app("new", qual, a, tuple(sorted((k, self.deref(v, st)) for k, v in kwargs.items())))
            return self.alloc(st, mk("obj", qual, ()))
        loc = self.alloc(st, mk("obj", qual, ()))
        _, q, m, node = init
        self.call_function(m, q.split(":")[1], node, args, kwargs, st, selfterm=loc, stack=stack)
        return loc

    def call(self, f, args, kwargs, st, callnode=None):
        stack = st.fn.stack
        self.budget -= 1
        if self.budget < 0:
            return unk("budget")
        if f.op == "ite":
            c, a, b = f.args
            if leaves(f) <= 8:
                s1, s2 = st.copy(), st.copy()
                v1 = self.call(a, args, kwargs, s1)
                v2 = self.call(b, args, kwargs, s2)
                self.merge_into(st, c, s1, s2)
                return self.merge_val(st, c, v1, v2)
        if f.op == "ref":
            k, q = f.args
            if k == "func":
                mod, name = q.split(":")
                m = self.prog.module(mod)
                if name in self.stub:
                    return self.stubval(name, st)
                if q in self.opaque or name in self.opaque:
                    return app("call", name, tuple(self.deref(a, st) for a in args), tuple(sorted((k2, self.deref(v, st)) for k2, v in kwargs.items())))
                node = m.binds[name][1]
                return self.call_function(m, None, node, args, kwargs, st, stack=stack)
            if k == "class":
                return self.instantiate_class(q, args, kwargs, st, stack)
            if k == "ext":
                self.externals.add(q)
                return lib.call_ext(self, q, args, kwargs, st)
        if f.op == "bound":
            kind, q, name, selfterm = f.args
            mod = q.split(":")[0]
            got = self.method(q, name)
            if got is None:
                return unk("method " + name)
            for nm in (name, q.split(":")[1] + "." + name):
                if nm in self.stub:
                    return self.stubval(nm, st)
            if name in self.opaque or (q.split(":")[1] + "." + name) in self.opaque or "rec:" + q.split(":")[1] + "." + name in self.opaque and any(x.endswith("." + name) for x in stack):
                return self.opaque_meth(st, selfterm, name, args, kwargs, got)
            _, owner, m, node = got
            cname = owner.split(":")[1]
            if kind == "static":
                return self.call_function(m, cname, node, args, kwargs, st, stack=stack)
            return self.call_function(m, cname, node, args, kwargs, st, selfterm=selfterm, stack=stack)
        if f.op == "closure":
            c = self.closures[f.args[0]]
            return self.call_function(c.mod, c.cls, c.node, args, kwargs, st, env_outer=c.env, stack=stack)
        if f.op == "lam":
            n, body = f.args
            if len(args) == n:
                h = body.height + 1
                return subst(body, {mk("bv", h, i): a for i, a in enumerate(args)})
        if f.op == "vmeth":
            return lib.call_method(self, f.args[0], f.args[1], args, kwargs, st)
        if f.op == "supermeth":
            return app("call", "super." + f.args[1], tuple([self.deref(f.args[0], st)] + [self.deref(a, st) for a in args]),
                       tuple(sorted((k, self.deref(v, st)) for k, v in kwargs.items())))
        cl = self.clsof(st, f)
        if cl:
            got = self.method(cl, "__call__") or self.method(cl, "forward")
            if got:
                return self.call(mk("bound", "method", cl, got[3].name, f), args, kwargs, st)
        return app("call", self.deref(f, st), tuple(self.deref(a, st) for a in args), tuple(sorted((k, self.deref(v, st)) for k, v in kwargs.items())))

    def stubval(self, name, st):
        v = self.stub[name]
        return self.alloc(st, v) if v.op in ("list", "dict") else v

    def opaque_meth(self, st, selfterm, name, args, kwargs, got=None):
        args = list(args)
        kwargs = dict(kwargs)
        if got is not None and isinstance(got[3], ast.FunctionDef):
            ps = [p.arg for p in got[3].args.args]
            if got[0] != "static":
                ps = ps[1:]
            nd = len(got[3].args.defaults)
            args = list(Interp.unstar(args, ps[:len(ps) - nd], kwargs))
            for p, a in zip(ps, args):
                kwargs[p] = a
            args = args[len(ps):]
        if selfterm.op == "loc":
            c = st.heap.get(selfterm.args[0])
            if c is not None and c.op == "obj":
                b = dict(c.args[1]).get("__base__")
                if b is not None:
                    selfterm = b
        return app("meth", self.deref(selfterm, st) if selfterm.op != "ref" else selfterm, name, tuple(self.deref(a, st) for a in args),
                   tuple(sorted((k, self.deref(v, st)) for k, v in kwargs.items())))

    # -------------------------------------------------- state merge
    def merge_val(self, st, c, a, b, s1=None, s2=None):
        if a is b:
            return a
        if a.op == "loc" and b.op == "loc" and s1 is not None and (a.args[0] in s2.heap or b.args[0] in s1.heap):
            return ite(c, a, b)      # one of several existing objects, not a new one
        if a.op == "loc" and b.op == "loc":
            ca, cb = st.heap.get(a.args[0]), st.heap.get(b.args[0])
            if ca is not None and cb is not None and (ca.op == cb.op or {ca.op, cb.op} <= {"list", "fm", "cat", "empty"}):
                if ca.op == "obj" and ca.args[0] != cb.args[0]:
                    return ite(c, a, b)
                return self.alloc(st, ite(c, ca, cb))
        return ite(c, a, b)

    def merge_into(self, st, c, s1, s2):
        heap = {}
        for k in set(s1.heap) | set(s2.heap):
            a, b = s1.heap.get(k), s2.heap.get(k)
            if a is None:
                heap[k] = b
            elif b is None:
                heap[k] = a
            else:
                heap[k] = merge_cell(c, a, b)
        st.heap = heap
        env = {}
        for k in set(s1.env) | set(s2.env):
            a, b = s1.env.get(k), s2.env.get(k)
            if a is None:
                a = mk("undef")
            if b is None:
                b = mk("undef")
            env[k] = self.merge_val(st, c, a, b, s1, s2)
        st.env = env
        st.trace = s1.trace if s1.trace is s2.trace else ite(c, s1.trace, s2.trace)
        st.ctl = ite(c, s1.ctl, s2.ctl)
        st.ret = s1.ret if s1.ret is s2.ret else self.merge_val(st, c, s1.ret, s2.ret, s1, s2)

    # -------------------------------------------------- statements
    def exec_block(self, stmts, st):
        i = 0
        while i < len(stmts):
            if st.ctl is not FALL:
                if st.ctl.op == "ctl":
                    return
                c = ctl_cond(st.ctl, (FALL,))
                if c is FALSE:
                    return
                if c is TRUE:
                    st.ctl = FALL
                    continue
                s1 = st.copy()
                s1.ctl = FALL
                self.guards += 1
                self.exec_block(stmts[i:], s1)
                self.guards -= 1
                s2 = st.copy()
                s2.ctl = drop_fall(st.ctl)
                self.merge_into(st, c, s1, s2)
                return
            s = stmts[i]
            i += 1
            if isinstance(s, ast.Assert) and self.asserting:
                t = s.test
                if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Eq, ast.NotEq)):
                    # a shape compared with an array: element by element, with no single outcome
                    ks = [self.deref(self.ev(x, st.copy()), st) for x in (t.left, t.comparators[0])]
                    if any(x.op == "attr" and x.args[1] == "shape" for x in ks) and any(x.op == "nparr" for x in ks):
                        s = ast.copy_location(ast.Assert(test=ast.Constant(value=False), msg=None), s)
                n = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=s.test), body=[ast.Raise(exc=ast.Name(id="AssertionError", ctx=ast.Load()), cause=None)], orelse=[])
                s = ast.fix_missing_locations(ast.copy_location(n, s))
            if isinstance(s, ast.If):
                c = self.cond(s.test, st)
                if st.ctl is not FALL:
                    # exception while evaluating the test
                    rest = [_If(c, s)] + stmts[i:]
                    stmts = stmts[:i] + rest
                    continue
                if c is TRUE:
                    stmts = stmts[:i] + s.body + stmts[i:]
                    continue
                if c is FALSE:
                    stmts = stmts[:i] + s.orelse + stmts[i:]
                    continue
                self.split(c, s.body, s.orelse, stmts[i:], st)
                if st.ctl is None:
                    st.ctl = FALL
                    continue
                if self._split_consumed:
                    return
                continue
            if isinstance(s, _If):
                self.split(s.c, s.s.body, s.s.orelse, stmts[i:], st)
                if self._split_consumed:
                    return
                continue
            self.exec_stmt(s, st)

    def split(self, c, body, orelse, rest, st):
        s1, s2 = st.copy(), st.copy()
        self.guards += 1
        if terminates(body) or terminates(orelse):
            self.exec_block(list(body) + list(rest), s1)
            self.exec_block(list(orelse) + list(rest), s2)
            self.guards -= 1
            self.merge_into(st, c, s1, s2)
            self._split_consumed = True
        else:
            self.exec_block(body, s1)
            self.exec_block(orelse, s2)
            self.guards -= 1
            self.merge_into(st, c, s1, s2)
            self._split_consumed = False

    guards = 0

    def fault(self, st, what, c):
        """memory misuse on every run that gets here"""
        if not self.guards and c is None:
            self.faults[(st.fn.mod.name, getattr(st.fn.node, "name", ""), what, "")] = "end of a function that has a result " + what
        elif not self.guards and c is NONE:
            self.faults[(st.fn.mod.name, getattr(st.fn.node, "name", ""), what, "")] = what
        elif not self.guards:
            while c.op in ("freed", "arr"):
                c = c.args[0]
            self.faults[(st.fn.mod.name, getattr(st.fn.node, "name", ""), what, "")] = "array %s %s" % (show(c)[:80], what)

    def bounds(self, c, i, st, how):
        """a definite access outside an array whose size is known, at a place that is reached whenever its loops are"""
        dims = c.args[0].args
        ix = i.args if i.op == "tuple" else (i,)
        for d, x in zip(dims, ix):
            if d is NONE or d.op == "none":
                continue
            w = outside(self.deref(x, st), self.deref(d, st))
            # no unconditional proof is attempted under a condition, except for plain numbers
            if w and (not self.guards or is_num(x) and is_num(d)):
                self.faults[(st.fn.mod.name, getattr(st.fn.node, "name", ""), show(x), show(d))] = "%s of element %s of an array of %s (%s)" % (how, show(x), show(d), w)

    def rowfaults(self):
        import itertools
        for (n, what, k), e in self.rowled.items():
            if e is not None and max(e[1]) <= 64:
                left = [t for t in itertools.product(*[range(int(d)) for d in e[1]]) if t not in e[2]]
                if left:
                    self.faults[e[0] + (what, str(left[0]))] = "row %s of an array of %s is not %s" % (", ".join(map(str, left[0])), " x ".join(map(str, e[1])), what)

    def rows(self, n, c, ix, st, what):
        """rows that the only loop allocating (releasing) them certainly leaves out"""
        key = (n, what, len(ix))
        if self.guards:
            self.rowled[key] = None
            return
        dims = [self.deref(d, st) for d in c.args[0].args[:len(ix)]]
        if self.rowled.get(key, 1) is not None and all(is_num(x) for x in ix) and all(is_num(d) for d in dims):
            self.rowled.setdefault(key, ((st.fn.mod.name, getattr(st.fn.node, "name", "")), [d.args[0] for d in dims], set()))[2].add(tuple(x.args[0] for x in ix))
            return
        self.rowled[key] = None
        for d, x in zip(c.args[0].args, ix):
            if d is NONE or d.op == "none":
                continue
            w = uncovered(x, self.deref(d, st))
            if w:
                self.faults[(st.fn.mod.name, getattr(st.fn.node, "name", ""), show(x), show(d))] = "rows of an array of %s %s: %s" % (show(d), what, w)

    _split_consumed = False

    def cond(self, node, st):
        v = self.ev(node, st)
        return self.truthv(v, st)

    def truthv(self, v, st):
        if v.op == "loc":
            c = st.heap.get(v.args[0])
            if c is not None and c.op != "obj":
                c = self.clean(c)
                if c.op in ("list", "dict", "empty"):
                    return TRUE if c.args else FALSE
                if c.op in ("fm", "cat"):
                    return bnot(eq(length(c), num(0)))
                return truth(self.deref(c, st))
            return TRUE
        if v.op == "sub":
            return bnot(eq(length(v), num(0)))
        return truth(self.deref(v, st))

    def exec_stmt(self, s, st):
        if isinstance(s, ast.Expr):
            tr = st.trace
            v = self.ev(s.value, st)
            if self.tryvals:
                self.tryvals[-1].append(self.deref(v, st))
            if st.trace is tr and v.op == "meth" and isinstance(s.value, ast.Call) and v.args[1] not in QUIETMETH:
                self.event(st, mk("ev", "do", (v.args[0],) + v.args[2], v.args[3] + (("method", string(v.args[1])),)))
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value, st)
            for t in s.targets:
                self.assign(t, v, st)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, st), st)
        elif isinstance(s, ast.AugAssign):
            self.augassign(s, st)
        elif isinstance(s, ast.Return):
            v = self.ev(s.value, st) if s.value is not None else NONE
            if st.ctl is FALL:
                st.ctl, st.ret = RET, v
            else:
                c = ctl_cond(st.ctl, (FALL,))
                st.ret = ite(c, v, st.ret)
                st.ctl = map_fall(st.ctl, RET)
        elif isinstance(s, ast.Raise):
            v = self.ev(s.exc, st) if s.exc is not None else mk("reraise")
            name = "Exception"
            if v.op in ("call",) and isinstance(v.args[0], str):
                name = v.args[0].split(".")[-1]
            elif v.op == "ref":
                name = v.args[1].split(".")[-1].split(":")[-1]
            elif v.op == "new":
                name = v.args[0].split(":")[-1]
            if st.ctl is FALL:
                st.ctl, st.ret = EXC, mk("exc", name)
        elif isinstance(s, ast.Break):
            st.ctl = BRK
        elif isinstance(s, ast.Continue):
            st.ctl = CONT
        elif isinstance(s, ast.For):
            self.exec_for(s, st)
        elif isinstance(s, ast.While):
            self.loop(st, INF, None, lambda k, x: None, s.body, s.orelse, test=s.test)
        elif isinstance(s, ast.With):
            for it in s.items:
                v = self.ev(it.context_expr, st)
                if it.optional_vars is not None:
                    v = lib.enter(self, v, st)
                    self.assign(it.optional_vars, v, st)
            self.exec_block(s.body, st)
        elif isinstance(s, ast.Try):
            self.exec_try(s, st)
        elif isinstance(s, (ast.FunctionDef,)):
            cid = len(self.closures)
            self.closures[cid] = Closure(s, st.env, st.fn.mod, st.fn.cls, s.name)
            st.env[s.name] = mk("closure", cid)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    st.env.pop(t.id, None)
                elif isinstance(t, ast.Subscript):
                    b = self.ev(t.value, st)
                    i = self.ev(t.slice, st)
                    if b.op == "loc":
                        st.heap[b.args[0]] = app("call", "delitem", (self.deref(st.heap[b.args[0]], st), i), ())
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            m = st.fn.mod
            if isinstance(s, ast.Import):
                for a in s.names:
                    st.env[a.asname or a.name.split(".")[0]] = mk("ref", "module", a.name if a.asname else a.name.split(".")[0])
            else:
                base = m.absname(s)
                for a in s.names:
                    r = self.prog.resolve(base, a.name) if self.prog.owns(base) else None
                    st.env[a.asname or a.name] = self.ref(r) if r else mk("ref", "ext", lib.canon(base + "." + a.name))
        elif isinstance(s, (ast.Pass, ast.Global, ast.Nonlocal, ast.Assert)):
            pass
        elif isinstance(s, ast.ClassDef):
            st.env[s.name] = mk("ref", "ext", "localclass." + s.name)
        else:
            st.env["?"] = unk(type(s).__name__)

    def exec_try(self, s, st):
        s1 = st.copy()
        self.tryvals.append([])
        self.exec_block(s.body, s1)
        # explicit exceptional exits of the body
        excc = ctl_cond(s1.ctl, (EXC,))
        body_raises = self.mayraise(st, s1)
        normal = s1.copy()
        handlers = []
        for h in s.handlers:
            names = handler_names(h)
            s2 = st.copy()
            s2.trace = s1.trace if False else st.trace
            if h.name:
                s2.env[h.name] = mk("caught")
            self.exec_block(h.body, s2)
            handlers.append((names, s2))
        if s.orelse and not terminates(s.body):
            self.exec_block(s.orelse, normal)
        if not handlers:
            st.become(normal)
        else:
            res = normal
            # outermost handler first
            for names, s2 in reversed(handlers):
                m = State({}, {}, EMPTYSEQ, st.fn)
                parts_ = []
                # explicit raises that this handler matches
                ex = FALSE
                if excc is not FALSE:
                    for leafcond, exn in exc_leaves(s1.ctl, s1.ret):
                        if matches(exn, names):
                            ex = bor(ex, leafcond)
                if body_raises:
                    r = mk("raises", tuple(names), tuple(sorted(body_raises)))
                    c = bor(ex, r)
                else:
                    c = ex
                if c is FALSE:
                    continue
                out = st.copy()
                self.merge_into(out, c, s2, res)
                res = out
            st.become(res)
        if s.finalbody:
            self.exec_block(s.finalbody, st)

    def mayraise(self, st0, s1):
        out = set()
        vals = []
        for k, v in s1.env.items():
            if st0.env.get(k) is not v:
                vals.append(v)
        for k, v in s1.heap.items():
            if st0.heap.get(k) is not v:
                vals.append(v)
        vals.append(s1.ret)
        vals += self.tryvals.pop()
        if s1.trace is not st0.trace:
            vals.append(s1.trace)
        seen = set()
        for v in vals:
            v = self.deref(v, s1)
            for x in subterms(v, seen):
                if x.op in ("idx", "call", "float", "int", "meth", "attr", "keyerror", "new"):
                    if not _open(x):
                        out.add(x)
        return out

    # -------------------------------------------------- assignment
    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            x = self.get(st, v)
            n = len(t.elts)
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    rest = n - i - 1
                    self.assign(e.value, subseq(x, num(i), num(-rest) if rest else NONE), st)
                elif stars and i > stars[0]:
                    self.assign(e, index(x, num(i - n)), st)
                else:
                    self.assign(e, index(x, num(i)), st)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            self.setattr_(o, t.attr, v, st, t.value)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            i = self.ev_index(t.slice, st)
            self.setitem(o, i, v, st, t.value)

    def setattr_(self, o, name, v, st, node=None):
        if name == "__class__" and isinstance(node, ast.Name):
            if v.op == "ref" and v.args[0] == "class":
                st.env[node.id] = mk("cast", self.deref(o, st), v.args[1])
                return
        if o.op == "loc":
            c = st.heap.get(o.args[0])
            if c is not None and c.op == "obj":
                if isinstance(c.args[0], str) and ":" in c.args[0] and self.method(c.args[0], name + "@set") is not None:
                    self.call(mk("bound", "method", c.args[0], name + "@set", o), [v], {}, st)
                    return
                f = dict(c.args[1])
                f[name] = v
                st.heap[o.args[0]] = mk("obj", c.args[0], tuple(sorted(f.items(), key=lambda kv: kv[0])))
                return
        if o.op in ("new", "cast", "sym", "call") and isinstance(node, ast.Name):
            loc = self.alloc(st, mk("obj", self.clsof(st, o) or "?", (("__base__", o), (name, v))))
            st.env[node.id] = loc
            return
        self.event(st, mk("ev", "setattr", self.deref(o, st), name, self.deref(v, st)))

    def setitem(self, o, i, v, st, node=None, aug=None):
        if o.op == "ite" and any(x.op == "loc" for x in leafterms(o)):
            if isinstance(node, (ast.Name, ast.Attribute)) and not all(x.op == "loc" for x in leafterms(o)):
                def home(t):
                    if t.op == "ite":
                        return ite(t.args[0], home(t.args[1]), home(t.args[2]))
                    return t if t.op == "loc" else self.alloc(st, mk("arr", t, EMPTYSEQ))
                o = home(o)
                if isinstance(node, ast.Name):
                    st.env[node.id] = o
                else:
                    self.setattr_(self.ev(node.value, st), node.attr, o, st, node.value)
            c, a, b = o.args
            s1, s2 = st.copy(), st.copy()
            self.setitem(a, i, v, s1, None, aug)
            self.setitem(b, i, v, s2, None, aug)
            self.merge_into(st, c, s1, s2)
            return
        if o.op != "loc":
            if o.op in ("fv",) and False:
                pass
            if isinstance(node, ast.Name):
                lib.lost(self, st, o)
            loc = self.alloc(st, mk("arr", o, EMPTYSEQ))
            if isinstance(node, ast.Name):
                st.env[node.id] = loc
            elif isinstance(node, ast.Attribute):
                base = self.ev(node.value, st)
                self.setattr_(base, node.attr, loc, st, node.value)
            elif isinstance(node, ast.Subscript):
                # a[i][j] = v on a non-heap inner value: treat as a[i, j] = v
                base = self.ev(node.value, st)
                j = self.ev_index(node.slice, st)
                self.setitem(base, mk("tuple", *(list(j.args if j.op == "tuple" else (j,)) + list(i.args if i.op == "tuple" else (i,)))), v, st, node.value, aug)
                return
            o = loc
        n = o.args[0]
        c = st.heap.get(n)
        if c is None:
            st.heap[n] = unk("heap")
            return
        if c.op == "freed":
            self.fault(st, "written after it was released", c)
            return
        if c.op == "carray" or c.op == "arr" and c.args[0].op == "carray":
            self.bounds(mk("arr", c, EMPTYSEQ) if c.op == "carray" else c, i, st, "write")
        if c.op == "ite":
            c = self.clean(c)
        if c.op == "ite" and leaves(c) <= 16 and all(x.op in ("dict", "dmap") for x in leafterms(c)):
            def each(t):
                if t.op == "ite":
                    return ite(t.args[0], each(t.args[1]), each(t.args[2]))
                st.heap[n] = t
                self.setitem(o, i, v, st, None, aug)
                return st.heap[n]
            st.heap[n] = each(c)
            return
        if c.op == "empty":
            c = mk("list")
        if c.op == "dict" and aug is None:
            if i.op in CONSTS or any(k is i for k, _ in c.args):
                out, done = [], False
                for k, x in c.args:
                    if k is i:
                        out.append((k, v))
                        done = True
                    else:
                        out.append((k, x))
                if not done:
                    if all(k.op in CONSTS for k, _ in c.args):
                        out.append((i, v))
                        st.heap[n] = mk("dict", *out)
                        return
                else:
                    st.heap[n] = mk("dict", *out)
                    return
            st.heap[n] = mk("dmap", c, mk("list", mk("tuple", self.deref(i, st), v)))
            return
        if c.op == "dmap":
            st.heap[n] = mk("dmap", c.args[0], cat(c.args[1], mk("list", mk("tuple", self.deref(i, st), v))))
            return
        if c.op in ("list",) and i.op == "num" and aug is None and -len(c.args) <= i.args[0] < len(c.args):
            l = list(c.args)
            l[int(i.args[0])] = v
            st.heap[n] = mk("list", *l)
            return
        if c.op != "arr":
            if c.op == "obj":
                self.event(st, mk("ev", "setitem", self.deref(o, st), self.deref(i, st), self.deref(v, st)))
                return
            c = mk("arr", c, EMPTYSEQ)
        tag = "+=" if aug == "+" else "="
        i = norm_index(self.deref(i, st))
        entry = mk("store", tag, i, self.deref(v, st))
        st.heap[n] = mk("arr", c.args[0], cat(c.args[1], mk("list", entry)))

    def augassign(self, s, st):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.ev(ast.Name(t.id, ast.Load()), st)
            v = self.ev(s.value, st)
            if cur.op == "loc":
                c = st.heap.get(cur.args[0])
                if c is not None and op == "Add" and c.op in ("list", "fm", "cat", "empty", "ite", "sym", "fv") and c.op != "arr":
                    st.heap[cur.args[0]] = cat(c, self.get(st, v))
                    return
                if c is not None and c.op == "arr":
                    st.env[t.id] = self.binop(op, self.deref(cur, st), self.deref(v, st), st)
                    return
            if op == "Add" and cur.op in ("list", "fm", "cat", "idx"):
                lib.lost(self, st, cur)
            st.env[t.id] = self.binop(op, cur, v, st)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            cur = self.attr(o, t.attr, st)
            v = self.ev(s.value, st)
            if cur.op == "loc" and op == "Add":
                c = st.heap.get(cur.args[0])
                if c is not None and c.op in ("list", "fm", "cat", "empty"):
                    st.heap[cur.args[0]] = cat(c, self.get(st, v))
                    return
            self.setattr_(o, t.attr, self.binop(op, cur, v, st), st, t.value)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            i = self.ev_index(t.slice, st)
            v = self.ev(s.value, st)
            c = self.get(st, o)
            if c.op == "arr" and op == "Add":
                self.setitem(o, i, v, st, t.value, aug="+")
                return
            if c.op == "arr" and op == "Sub":
                self.setitem(o, i, neg(self.deref(v, st)), st, t.value, aug="+")
                return
            cur = self.getitem(o, i, st)
            self.setitem(o, i, self.binop(op, cur, v, st), st, t.value)

    def event(self, st, e):
        st.trace = cat(st.trace, mk("list", e)) if st.trace is not EMPTYSEQ else mk("list", e)

    # -------------------------------------------------- loops
    def exec_for(self, s, st):
        it = self.ev(s.iter, st)
        self.iterate(it, s, st)

    def iterate(self, it, s, st):
        x = self.iterable(it, st)
        self.iterate_over(x, s.target, s.body, s.orelse, st)

    def iterate_over(self, x, target, body, orelse, st):
        if x.op == "ite" and leaves(x) <= 16:
            c, a, b = x.args
            s1, s2 = st.copy(), st.copy()
            self.iterate_over(a, target, body, [], s1)
            self.iterate_over(b, target, body, [], s2)
            self.merge_into(st, c, s1, s2)
            if orelse:
                self.exec_block(orelse, st)
            return
        if x.op in ("list", "tuple") and len(x.args) <= 160:
            for e in x.args:
                self.step(e, target, body, st)
                if st.ctl is BRK:
                    st.ctl = FALL
                    return
                if st.ctl is not FALL:
                    # conditional exit from an unrolled loop
                    if st.ctl.op == "ctl":
                        return
                    self.unroll_rest(x.args[x.args.index(e) + 1:], target, body, st)
                    return
            if orelse:
                self.exec_block(orelse, st)
            return
        if x.op == "empty":
            return
        if x.op == "cat" and not terminates(body):
            for p in x.args:
                self.iterate_over(p, target, body, [], st)
            return
        n, elem, flt = iter_desc(x)
        if n.op == "num" and n.args[0].denominator == 1 and 0 <= n.args[0] <= (UNROLL if not constish(x) else 160) and flt is None:
            self.iterate_over(mk("list", *[elem(num(i)) for i in range(int(n.args[0]))]), target, body, orelse, st)
            return
        if flt is None:
            self.loop(st, n, target, elem, body, orelse)
        else:
            self.loop(st, n, target, elem, body, orelse, flt=flt)

    def unroll_rest(self, elems, target, body, st):
        """after a conditional exit, continue under the fall-through condition"""
        c = ctl_cond(st.ctl, (FALL, CONT))
        s1, s2 = st.copy(), st.copy()
        s1.ctl = FALL
        self.iterate_over(mk("list", *elems), target, body, [], s1)
        s2.ctl = map_leaf(drop_fall(st.ctl), {BRK: FALL})
        self.merge_into(st, c, s1, s2)

    def step(self, e, target, body, st):
        self.assign(target, e, st)
        self.exec_block(body, st)
        st.ctl = map_leaf(st.ctl, {CONT: FALL})

    def slots(self, st):
        out = {}
        for k, v in st.env.items():
            out[("v", k)] = v
        for n, c in st.heap.items():
            if c.op == "obj":
                for f, v in c.args[1]:
                    out[("f", n, f)] = v
            elif c.op == "handle":
                out[("hc", n)] = c.args[2]
                out[("hp", n)] = c.args[3]
            elif c.op == "arr":
                out[("as", n)] = c.args[1]
            elif c.op == "dmap":
                out[("dm", n)] = c.args[1]
            elif c.op == "dict":
                out[("d", n)] = c
            else:
                out[("h", n)] = c
        out[("t",)] = st.trace
        return out

    def setslot(self, st, k, v):
        if k[0] == "v":
            st.env[k[1]] = v
        elif k[0] == "f":
            c = st.heap[k[1]]
            f = dict(c.args[1])
            f[k[2]] = v
            st.heap[k[1]] = mk("obj", c.args[0], tuple(sorted(f.items(), key=lambda kv: kv[0])))
        elif k[0] == "hc":
            c = st.heap[k[1]]
            st.heap[k[1]] = mk("handle", c.args[0], c.args[1], v, c.args[3])
        elif k[0] == "hp":
            c = st.heap[k[1]]
            st.heap[k[1]] = mk("handle", c.args[0], c.args[1], c.args[2], v)
        elif k[0] == "as":
            c = st.heap[k[1]]
            st.heap[k[1]] = mk("arr", c.args[0], v)
        elif k[0] == "dm":
            c = st.heap[k[1]]
            st.heap[k[1]] = mk("dmap", c.args[0], v)
        elif k[0] in ("h", "d"):
            st.heap[k[1]] = v
        elif k[0] == "t":
            st.trace = v

    def loop(self, st, n, target, elem, body, orelse, flt=None, test=None):
        k = fv("k")
        if n is not INF:
            BOUND[k] = n
        base_loc = self.nloc[0]

        def run(s):
            if test is not None:
                c = self.cond(test, s)
                if c is FALSE:
                    s.ctl = BRK
                    return
                s1, s2 = s.copy(), s.copy()
                self.guards += 1
                self.exec_block(body, s1)
                self.guards -= 1
                s2.ctl = BRK
                self.merge_into(s, c, s1, s2)
            elif flt is not None:
                c = truth(flt(k))
                s1, s2 = s.copy(), s.copy()
                self.assign(target, elem(k), s1)
                self.guards += 1
                self.exec_block(body, s1)
                self.guards -= 1
                self.merge_into(s, c, s1, s2)
            else:
                if target is not None:
                    self.assign(target, elem(k), s)
                g = leaves_early(body)
                self.guards += g
                self.exec_block(body, s)
                self.guards -= g

        st0 = st
        carries = {}
        conv = set()
        cs = None
        for attempt in range(8):
            s = st0.copy()
            # content-kind conversions discovered earlier
            for loc in conv:
                c = s.heap[loc]
                if c.op == "dict":
                    s.heap[loc] = mk("dmap", c, EMPTYSEQ)
                elif c.op not in ("arr", "dmap", "obj", "handle"):
                    s.heap[loc] = mk("arr", c, EMPTYSEQ)
            before = self.slots(s)
            for kx, c in carries.items():
                if kx in before:
                    self.setslot(s, kx, c)
            ref0 = self.slots(s)
            self.missed.clear()
            run(s)
            after = self.slots(s)
            new = [kx for kx in ref0 if after.get(kx) is not ref0[kx] and kx not in carries and kx in after]
            kinds = []
            for kx in ref0:
                if kx not in after and kx[0] in ("h", "d"):
                    kinds.append(kx[1])
            half = [kx for kx, v in after.items() if kx not in ref0 and kx[0] == "v" and v.op == "ite" and any(x is UNDEF for x in leafterms(v))]
            half += [kx for kx in after if kx not in ref0 and kx[0] == "v" and kx[1] in self.missed and kx not in half]
            for kx in half:
                # first assigned under a condition inside the loop: carried from "undefined"
                st0.env[kx[1]] = UNDEF
            lost = set(kx[1] for kx in ref0 if kx not in after and kx[0] in ("as", "dm", "f", "hc", "hp") and kx[1] in s.heap)
            if not new and not kinds and not half:
                break
            conv.update(kinds)
            for kx in kinds:
                carries.pop(("h", kx), None)
                carries.pop(("d", kx), None)
            for kx in new:
                if kx[0] == "d":
                    conv.add(kx[1])
                    continue
                carries[kx] = fv("cs" if ref0[kx].op in ("str", "fmt", "cat", "list", "fm", "lines") else "c")
        init = before
        # deref locs allocated in this iteration
        newlocs = set(x for x in s.heap if x > base_loc and x not in st0.heap)

        def fin(v):
            return self.deref_some(v, s, newlocs)
        upd = {kx: fin(after[kx]) for kx in carries if kx in after}
        temps = {kx: fin(v) for kx, v in after.items() if kx not in ref0 and kx[0] == "v"}
        fields = {kx: fin(v) for kx, v in after.items() if kx not in ref0 and kx[0] == "f" and kx[1] in st0.heap}
        ctl = map_leaf(s.ctl, {CONT: FALL})
        ret = fin(s.ret)
        xc = bnot(ctl_cond(ctl, (FALL,)))
        at = self.solve(init, carries, upd, k, xc)
        sub_at = {carries[kx]: at[kx](k) for kx in carries if kx in at}

        def inst(t, kk):
            m = {carries[kx]: at[kx](kk) for kx in carries if kx in at and carries[kx] in t.syms}
            m[k] = kk
            return subst(t, m)
        if xc is FALSE:
            cnt = n
        else:
            xk = subst(xc, dict((c, v) for c, v in sub_at.items() if c in xc.syms))
            cnt = brk(n, k, xk)
        # normal completion state
        sn = st0.copy()
        for loc in conv:
            c = sn.heap[loc]
            if c.op == "dict":
                sn.heap[loc] = mk("dmap", c, EMPTYSEQ)
            elif c.op not in ("arr", "dmap", "obj", "handle"):
                sn.heap[loc] = mk("arr", c, EMPTYSEQ)
        for loc in lost:
            if loc in sn.heap:
                sn.heap[loc] = unk("mutable value changes kind in a loop")
        se = sn.copy()
        for kx in carries:
            if kx[0] != "v" and len(kx) > 1 and kx[1] in lost:
                continue
            if kx in at:
                self.setslot(sn, kx, at[kx](cnt))
        last = sub(cnt, num(1)) if cnt is not INF else None
        for kx, v in list(temps.items()) + list(fields.items()):
            if last is not None and v.size < 20000:
                val = inst(restrict_bool(v, xc, False), last)
            else:
                val = unk("loop temp")
            self.setslot(sn, kx, val)
        for loc in newlocs:
            pass
        if xc is FALSE:
            st.become(sn)
            if orelse:
                self.exec_block(orelse, st)
            return
        if orelse:
            self.exec_block(orelse, sn)
        for kx in carries:
            if kx in upd:
                self.setslot(se, kx, inst(restrict_bool(upd[kx], xc, True), cnt))
        for kx, v in temps.items():
            self.setslot(se, kx, inst(restrict_bool(v, xc, True), cnt))
        se.ctl = map_leaf(inst(drop_fall(ctl), cnt), {BRK: FALL})
        se.ret = inst(restrict_bool(ret, xc, True), cnt)
        if n is INF:
            st.become(se)
            return
        self.merge_into(st, lt(cnt, n), se, sn)

    def deref_some(self, t, s, locs):
        if not isinstance(t, T) or not _hasloc(t):
            return t
        if t.op == "loc":
            if t.args[0] in locs:
                c = s.heap[t.args[0]]
                return self.clean(self.deref_some(c, s, locs))
            return t
        if t.op == "obj":
            return mk("obj", t.args[0], tuple((a, self.deref_some(b, s, locs)) for a, b in t.args[1]))
        return rebuild(t, lambda x: self.deref_some(x, s, locs))

    def solve(self, init, carries, upd, k, xc):
        """closed forms: slot -> function(iteration index) giving value at loop head"""
        at = {}
        todo = dict((kx, upd[kx]) for kx in carries if kx in upd)
        for kx in list(todo):
            todo[kx] = restrict_bool(todo[kx], xc, False)
        rev = {c: kx for kx, c in carries.items()}
        cset = set(carries.values())

        def free(t):
            return t.syms & cset

        def settle(kx, f):
            at[kx] = f
            c = carries[kx]
            del todo[kx]
            cset.discard(c)
            val = f(k)
            for o in todo:
                if c in todo[o].syms:
                    todo[o] = subst(todo[o], {c: val})
        for kx in list(carries):
            if kx not in todo:
                i0 = init.get(kx, UNDEF)
                at[kx] = (lambda v: (lambda kk: v))(i0)
        progress = True
        while progress and todo:
            progress = False
            for kx in list(todo):
                t, c, i0 = todo[kx], carries[kx], init[kx]
                if t is c:
                    settle(kx, lambda kk, v=i0: v)
                    progress = True
                    break
                seqslot = kx[0] in ("h", "hc", "as", "dm", "t") or i0.op in ("str", "fmt", "cat", "list", "tuple")
                if not seqslot:
                    d = sub(t, c)
                    if not free(d) and not t.op in ("bool", "ctl") and numericish(i0, d):
                        if k not in d.syms:
                            settle(kx, lambda kk, v=i0, d=d: add(v, mul(d, kk)))
                        else:
                            def f(kk, v=i0, d=d):
                                j = fv()
                                return add(v, sum_(kk, j, subst(d, {k: j})))
                            settle(kx, f)
                        progress = True
                        break
                else:
                    r = strip_prefix(t, c)
                    if r is not None and kx[0] == "as" and c in r.syms:
                        r = own_element(r, c, i0, k)
                    if r is not None and not free(r):
                        def f(kk, v=i0, r=r):
                            j = fv()
                            return cat(v, fm(kk, j, subst(r, {k: j})))
                        settle(kx, f)
                        progress = True
                        break
                if not free(t):
                    if k not in t.syms:
                        settle(kx, lambda kk, v=i0, t=t: ite(lt(num(0), kk), t, v))
                    else:
                        settle(kx, lambda kk, v=i0, t=t: ite(lt(num(0), kk), subst(t, {k: sub(kk, num(1))}), v))
                    progress = True
                    break
            if not progress and todo:
                # self-only folds, then mutual folds
                for kx in list(todo):
                    t, c, i0 = todo[kx], carries[kx], init[kx]
                    if free(t) == frozenset([c]):
                        mx = as_extremum(t, c, i0, k) or kx[0] == "as" and one_element(t, c, i0, k) or None
                        la = as_last(t, c, i0, k) if mx is None else None
                        if mx is not None:
                            settle(kx, mx)
                        elif la is not None:
                            settle(kx, la)
                        else:
                            settle(kx, lambda kk, v=i0, t=t, c=c: fold_fresh(kk, v, k, c, t))
                        progress = True
                        break
                if not progress:
                    grp = sorted(todo, key=lambda q: (str(q[0]), str(q[1:])))
                    ts = [todo[q] for q in grp]
                    cc = [carries[q] for q in grp]
                    ii = [init[q] for q in grp]
                    for i, q in enumerate(grp):
                        at[q] = (lambda kk, i=i, ts=tuple(ts), cc=tuple(cc), ii=tuple(ii): mfold(kk, list(ii), k, list(cc), list(ts), i))
                    todo.clear()
        return at

    # -------------------------------------------------- iterables
    def iterable(self, it, st):
        c = self.get(st, it)
        if c.op == "handle":
            return mk("lines", c.args[0])
        if c.op == "obj":
            c0 = dict(c.args[1]).get("__base__")
            if c0 is not None:
                return c0
        c = self.clean(c)
        if c.op == "dict":
            return mk("list", *[k for k, _ in c.args])
        if c.op == "dmap":
            return mk("keys", self.deref(c, st))
        if c.op == "arr":
            return self.deref(c, st)
        return c

    # -------------------------------------------------- expressions
    def ev_index(self, node, st):
        if isinstance(node, ast.Slice):
            a = self.ev(node.lower, st) if node.lower is not None else NONE
            b = self.ev(node.upper, st) if node.upper is not None else NONE
            c = self.ev(node.step, st) if node.step is not None else NONE
            if a.op == "num" and a.args[0] == 0:
                a = NONE
            return mk("slice", self.deref(a, st), self.deref(b, st), c)
        if isinstance(node, ast.Tuple):
            return mk("tuple", *[self.ev_index(e, st) for e in node.elts])
        return self.deref(self.ev(node, st), st)

    def incxx(self, st):
        """the code being read is C++: an index outside the array has no defined result, so it may be taken to be inside"""
        return st.fn.mod.name.startswith("cxx.")

    def getitem(self, o, i, st):
        if o.op == "loc":
            c = st.heap.get(o.args[0])
            if c is None:
                return unk("heap")
            c = self.clean(c)
            if c.op == "freed":
                self.fault(st, "read after it was released", c)
                return unk("released memory")
            if c.op == "carray":
                c = mk("arr", c, EMPTYSEQ)
            if c.op == "arr":
                if c.args[0].op == "carray":
                    self.bounds(c, i, st, "read")
                i = norm_index(i)
                r = select(c, i)
                if r is not None:
                    return r
                if c.args[0].op == "carray" and len(i.args if i.op == "tuple" else (i,)) >= len(c.args[0].args) or self.incxx(st) and cdims(c.args[0]):
                    r = aread(c.args[0], self.deref(c.args[1], st), self.deref(i, st))
                    if r is not None:
                        return r
                return index(self.deref(c, st), i)
            if c.op == "dmap":
                ps = c.args[1]
                if ps.op == "list":
                    for e in reversed(ps.args):
                        if e.op == "tuple" and e.args[0] is i:
                            return e.args[1]
                        if not (e.op == "tuple" and e.args[0].op in CONSTS and i.op in CONSTS):
                            break
                return index(self.deref(c, st), i)
            if c.op == "obj":
                q = c.args[0]
                if self.method(q, "__getitem__"):
                    return self.call(mk("bound", "method", q, "__getitem__", o), [i], {}, st)
                b = dict(c.args[1]).get("__base__")
                if b is not None:
                    return index(self.deref(b, st), i)
            return index(c, i)
        if o.op == "ite" and _hasloc(o):
            c, a, b = o.args
            return ite(c, self.getitem(a, i, st), self.getitem(b, i, st))
        if o is NONE and self.incxx(st):
            self.fault(st, "element of a null pointer read", NONE)
        return index(o, i)

    def attr(self, o, name, st):
        if o.op == "ite" and leaves(o) <= 16:
            c, a, b = o.args
            return ite(c, self.attr(a, name, st), self.attr(b, name, st))
        if o.op == "ref":
            k, q = o.args
            if k in ("module", "ext"):
                if name == "newaxis":
                    return NONE
                r = self.ref_attr(o, name)
                return r if r is not None else mk("ref", "ext", q + "." + name)
            if k == "class":
                got = self.method(q, name)
                if got is not None:
                    kind, owner, m, node = got
                    if kind == "attr":
                        return self.class_attr(q, owner, name, m, node)
                    if isinstance(node, ast.ClassDef):
                        return mk("ref", "class", owner + "." + name)
                    if kind == "class":
                        return mk("bound", "class", q, name, o)
                    if kind == "static":
                        return mk("bound", "static", q, name, o)
                    if kind == "method":
                        return mk("bound", "static", q, name, o)   # unbound function
                    return mk("bound", kind, q, name, o)
                if name == "__name__":
                    return string(q.split(":")[1])
                for e in self.mro(q):
                    if e[0] == "ext":
                        return mk("ref", "ext", e[1] + "." + name)
                return mk("attr", o, name)
            return mk("attr", o, name)
        if o.op == "loc":
            c = st.heap.get(o.args[0])
            if c is not None and c.op == "obj":
                f = dict(c.args[1])
                if name in f:
                    return f[name]
                got = self.method(c.args[0], name) if c.args[0] != "?" else None
                if got is not None:
                    return self.bind(got, c.args[0], name, o, st)
                b = f.get("__base__")
                if b is not None:
                    return mk("vmeth", b, name)
                for e in self.mro(c.args[0]) if c.args[0] != "?" else []:
                    if e[0] == "ext" and not e[1].endswith("object") and not e[1].endswith("ABC"):
                        return mk("vmeth", o, name)
                return mk("attrerror", name)
            return mk("vmeth", o, name)
        cl = self.clsof(st, o)
        if cl:
            got = self.method(cl, name)
            if got is not None:
                return self.bind(got, cl, name, o, st)
        if o.op == "super":
            return lib.super_attr(self, o, name, st)
        if o is NONE and self.incxx(st):
            self.fault(st, "null pointer followed to " + name, NONE)
        return mk("vmeth", o, name)

    def bind(self, got, q, name, o, st):
        kind, owner, m, node = got
        if kind == "attr":
            return self.class_attr(q, owner, name, m, node)
        if kind == "property":
            return self.call(mk("bound", "method", q, name, o), [], {}, st)
        if isinstance(node, ast.ClassDef):
            return mk("ref", "class", owner + "." + name)
        if kind == "class":
            return mk("bound", "class", q, name, mk("ref", "class", q))
        return mk("bound", kind, q, name, o)

    def class_attr(self, q, owner, name, m, node):
        key = (owner, name)
        if key not in self.classattr:
            s = State({}, {}, EMPTYSEQ, Frame(m, None, None, ()))
            v = self.deref(self.ev(node, s), s)
            if v.op == "dict" and not v.args and self.method(owner, "register"):
                v = self.registry(owner)
            self.classattr[key] = v
        return self.classattr[key]

    def registry(self, owner):
        ps = []
        mod, cname = owner.split(":")
        for m in list(self.prog.mods.values()):
            for s in m.tree.body:
                if isinstance(s, ast.ClassDef):
                    for d in s.decorator_list:
                        if isinstance(d, ast.Call) and isinstance(d.func, ast.Attribute) and d.func.attr == "register":
                            r = self.static(m, d.func.value)
                            if r is not None and r.op == "ref" and r.args[1] == owner and d.args and isinstance(d.args[0], ast.Constant):
                                ps.append((string(d.args[0].value), mk("ref", "class", m.name + ":" + s.name)))
        return mk("dict", *ps)

    def value_attr(self, o, name, st):
        """attribute used as a value (not called)"""
        if o.op == "vmeth":
            base, nm = o.args
            return lib.value_attr(self, base, nm, st)
        return o

    def ev(self, node, st):
        v = self.ev0(node, st)
        if v.op == "vmeth":
            return lib.value_attr(self, v.args[0], v.args[1], st)
        return v

    def ev0(self, node, st):
        self.budget -= 1
        if self.budget < 0:
            return unk("budget")
        k = type(node).__name__
        f = getattr(self, "ev_" + k, None)
        if f is None:
            return unk(k)
        return f(node, st)

    def ev_Constant(self, n, st):
        v = n.value
        if v is True:
            return TRUE
        if v is False:
            return FALSE
        if v is None:
            return NONE
        if isinstance(v, (int, float)):
            return num(v)
        if isinstance(v, str):
            return string(v)
        if v is Ellipsis:
            return mk("ellipsis")
        return mk("const", repr(v))

    def ev_Name(self, n, st):
        if n.id in st.env:
            return st.env[n.id]
        fr = st.fn
        o = fr.env_outer
        while o is not None:
            if n.id in o:
                return o[n.id]
            o = None
        ms = self.modenv.get(fr.mod.name)
        r = self.prog.resolve(fr.mod.name, n.id)
        if r is not None:
            v = self.ref(r)
            if v is not None:
                return v
        if not hasattr(builtins, n.id) and n.id not in lib.CXXB:
            self.missed.add(n.id)
            return mk("nameerror", n.id)
        return mk("ref", "ext", lib.canon("builtins." + n.id))

    def ev_Attribute(self, n, st):
        o = self.ev(n.value, st)
        return self.attr(o, n.attr, st)

    def ev_Subscript(self, n, st):
        o = self.ev(n.value, st)
        i = self.ev_index(n.slice, st)
        return self.getitem(o, i, st)

    def ev_Slice(self, n, st):
        return self.ev_index(n, st)

    def ev_List(self, n, st):
        return self.alloc(st, self.seqlit(n, st))

    def seqlit(self, n, st):
        ps = []
        cur = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.iterable(self.ev(e.value, st), st)
                ps.append(mk("list", *cur))
                cur = []
                ps.append(v)
            else:
                cur.append(self.ev(e, st))
        ps.append(mk("list", *cur))
        return cat(*ps) if len(ps) > 1 else ps[0]

    def ev_Tuple(self, n, st):
        v = self.seqlit(n, st)
        return mk("tuple", *v.args) if v.op == "list" else v

    def ev_Set(self, n, st):
        return mk("set", self.seqlit(n, st))

    def ev_Dict(self, n, st):
        ps = []
        sp = None
        for k, v in zip(n.keys, n.values):
            if k is None:
                d = self.get(st, self.ev(v, st))
                if d.op == "dict":
                    ps.extend(d.args)
                elif sp is None and not ps:
                    sp = self.deref(d, st)
                else:
                    sp = unk("dict display")
            else:
                ps.append((self.deref(self.ev(k, st), st), self.ev(v, st)))
        seen = {}
        out = []
        for k, v in ps:
            if k in seen:
                out[seen[k]] = (k, v)
            else:
                seen[k] = len(out)
                out.append((k, v))
        if sp is not None:
            if sp.op == "unk":
                return sp
            return self.alloc(st, mk("dmap", sp, mk("list", *[mk("tuple", k, v) for k, v in out])))
        return self.alloc(st, mk("dict", *out))

    def ev_BinOp(self, n, st):
        a = self.ev(n.left, st)
        b = self.ev(n.right, st)
        return self.binop(type(n.op).__name__, a, b, st)

    def binop(self, op, a, b, st):
        if op == "Mod" and a.op == "str":
            args = self.get(st, b)
            args = list(args.args) if args.op == "tuple" else [b]
            return lib.percent_format(a.args[0], [self.deref(x, st) for x in args])
        if op == "Mod" and a.op == "cat" and all(p.op in ("str", "fmt") for p in a.args):
            return app("call", "percentfmt", (self.deref(a, st), self.deref(b, st)), ())
        a, b = self.deref(a, st), self.deref(b, st)
        if op in ("Add", "Sub", "Mult", "Div") and (rowof(a) is a) != (rowof(b) is b):
            a, b = rowof(a), rowof(b)
        if op == "Add":
            return add(a, b)
        if op == "Sub":
            return sub(a, b)
        if op == "Mult":
            if a.op in SEQOPS or b.op in SEQOPS:
                if b.op in SEQOPS and a.op not in SEQOPS:
                    a, b = b, a
                if b.op == "num" and b.args[0].denominator == 1 and 0 <= b.args[0] <= 64 and a.op in ("list", "str"):
                    if a.op == "list":
                        return mk("list", *(a.args * int(b.args[0])))
                    return string(a.args[0] * int(b.args[0]))
                if a.op == "list":
                    return fm(b, fv(), a)
                return app("call", "repeat", (a, b), ())
            for x, y in ((a, b), (b, a)):
                if boolarr(x) and not boolarr(y):
                    return ite(truth(x), y, num(0))     # selected elements, zero elsewhere
            return mul(a, b)
        if op == "Div":
            return div(a, b)
        if op == "FloorDiv":
            return floordiv(a, b)
        if op == "Mod":
            return mod(a, b)
        if op == "Pow":
            return power(a, b)
        if op == "MatMult":
            return app("call", "matmul", (a, b), ())
        if op in ("BitAnd", "BitOr", "BitXor"):
            if isboolish(a) and isboolish(b) and op != "BitXor":
                return band(a, b) if op == "BitAnd" else bor(a, b)
            if spread(a) is None or spread(b) is None:
                a, b = spread(a) or a, spread(b) or b
            x, y = sorted((a, b), key=okey)
            return app("call", op, (x, y), ())
        return app("call", op, (a, b), ())

    def ev_UnaryOp(self, n, st):
        if isinstance(n.op, ast.Not):
            return bnot(self.cond(n.operand, st))
        v = self.deref(self.ev(n.operand, st), st)
        if isinstance(n.op, ast.USub):
            return neg(v)
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert):
            return app("call", "Invert", (v,), ())
        return unk("unary")

    def ev_BoolOp(self, n, st):
        vals = []
        v = self.ev(n.values[0], st)
        for x in n.values[1:]:
            c = self.truthv(v, st)
            self.guards += 1
            w = self.ev(x, st)
            self.guards -= 1
            if isinstance(n.op, ast.And):
                v = ite(c, w, v) if not isboolish(v) else ite(c, self.deref(w, st), FALSE)
            else:
                v = ite(c, v, w) if not isboolish(v) else ite(c, TRUE, self.deref(w, st))
        return v

    def ev_Compare(self, n, st):
        l = self.ev(n.left, st)
        res = TRUE
        for op, r in zip(n.ops, n.comparators):
            rv = self.ev(r, st)
            res = band(res, self.compare(type(op).__name__, l, rv, st))
            l = rv
        return res

    def compare(self, op, l, r, st):
        if op in ("Is", "IsNot"):
            a, b = self.deref(l, st), self.deref(r, st)
            if l.op == r.op == "loc" and (l is r or a.op == b.op == "obj"):
                v = TRUE if l is r else FALSE
            elif self.incxx(st) and (l.op == "loc" and a.op == "obj" and b.op in ("meth", "attr") or r.op == "loc" and b.op == "obj" and a.op in ("meth", "attr")):
                v = FALSE               # an object made here and one that came out of a call
            elif a.op in CONSTS and b.op in CONSTS:
                v = TRUE if a is b else FALSE
            elif l.op == "loc" and b.op in CONSTS or r.op == "loc" and a.op in CONSTS:
                v = FALSE
            elif a.op in ("nparr", "list", "call", "ref", "fm", "new", "tuple", "poly", "meth", "cat", "arr") and b.op in CONSTS:
                if a.op in ("call", "meth", "poly") and b is NONE:
                    v = FALSE if _solid(a) and b.op in ("none", "bool") or _solid(b) and a.op in ("none", "bool") else mk("is", a, b)
                else:
                    v = FALSE
            else:
                v = lift(lambda x, y: (TRUE if x is y else FALSE) if x.op in CONSTS and y.op in CONSTS else
                         (FALSE if (x.op in ("nparr", "list", "new", "fm", "arr") or _solid(x)) and y.op in CONSTS else mk("is", x, y)), a, b)
            return v if op == "Is" else bnot(v)
        if op in ("In", "NotIn"):
            b = self.iterable(r, st) if r.op == "loc" else r
            if b.op == "keys":
                b = mk("keys", self.deref(b.args[0], st))
            v = isin(self.deref(l, st), self.deref(b, st))
            return v if op == "In" else bnot(v)
        a, b = self.deref(l, st), self.deref(r, st)
        if op == "Eq":
            return eq(a, b)
        if op == "NotEq":
            return bnot(eq(a, b))
        if op == "Lt":
            return lt(a, b)
        if op == "Gt":
            return lt(b, a)
        if op == "LtE":
            return le(a, b)
        if op == "GtE":
            return le(b, a)
        return unk("cmp")

    def ev_IfExp(self, n, st):
        c = self.cond(n.test, st)
        if c is TRUE:
            return self.ev(n.body, st)
        if c is FALSE:
            return self.ev(n.orelse, st)
        s1, s2 = st.copy(), st.copy()
        self.guards += 1
        a = self.ev(n.body, s1)
        b = self.ev(n.orelse, s2)
        self.guards -= 1
        self.merge_into(st, c, s1, s2)
        return self.merge_val(st, c, a, b, s1, s2)

    def ev_NamedExpr(self, n, st):
        v = self.ev(n.value, st)
        self.assign(n.target, v, st)
        return v

    def ev_Lambda(self, n, st):
        cid = len(self.closures)
        self.closures[cid] = Closure(n, dict(st.env, **{}) if st.fn.env_outer is None else dict(st.fn.env_outer, **st.env), st.fn.mod, st.fn.cls, "<lambda>")
        return mk("closure", cid)

    def fn_term(self, f, arity, st):
        """a callable value as a lam term"""
        vs = [fv("l") for _ in range(arity)]
        s = st.copy()
        r = self.deref(self.call(f, list(vs), {}, s), s)
        return lam(vs, r)

    def ev_JoinedStr(self, n, st):
        ps = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                ps.append(string(v.value))
            else:
                x = self.deref(self.ev(v.value, st), st)
                spec = ""
                if v.format_spec is not None:
                    sp = self.ev_JoinedStr(v.format_spec, st)
                    spec = sp.args[0] if sp.op == "str" else sp
                ps.append(lib.fmt(x, spec))
        return cat(*ps) if ps else string("")

    def ev_FormattedValue(self, n, st):
        return lib.fmt(self.deref(self.ev(n.value, st), st), "")

    def ev_Starred(self, n, st):
        return mk("star", self.ev(n.value, st))

    def comp(self, gens, i, st, leaf):
        """sequence term for comprehension generators gens[i:]"""
        if i == len(gens):
            return leaf(st)
        g = gens[i]
        x = self.iterable(self.ev(g.iter, st), st)
        return self.comp_over(x, g, gens, i, st, leaf)

    def comp_over(self, x, g, gens, i, st, leaf):
        if x.op == "ite" and leaves(x) <= 16:
            c, a, b = x.args
            return ite(c, self.comp_over(a, g, gens, i, st, leaf), self.comp_over(b, g, gens, i, st, leaf))

        def one(e, s):
            self.assign(g.target, e, s)
            c = TRUE
            for f in g.ifs:
                c = band(c, self.cond(f, s))
            r = self.comp(gens, i + 1, s, leaf)
            return ite(c, r, mk("list")) if c is not TRUE else r
        if x.op in ("list", "tuple") and len(x.args) <= 160:
            out = []
            s = st.copy()
            for e in x.args:
                out.append(one(e, s))
            st.heap, st.trace = s.heap, s.trace
            return cat(*out) if out else mk("list")
        if x.op == "empty":
            return mk("list")
        if x.op == "cat":
            return cat(*[self.comp_over(p, g, gens, i, st, leaf) for p in x.args])
        n, elem, flt = iter_desc(x)
        if n.op == "num" and n.args[0].denominator == 1 and 0 <= n.args[0] <= (UNROLL if not constish(x) else 160) and flt is None:
            return self.comp_over(mk("list", *[elem(num(j)) for j in range(int(n.args[0]))]), g, gens, i, st, leaf)
        k = fv("k")
        s = st.copy()
        r = one(elem(k), s)
        if s.trace is not st.trace or any(s.heap.get(a) is not b for a, b in st.heap.items()):
            raise Effectful()
        r = self.deref(r, s)
        if flt is not None:
            r = ite(truth(flt(k)), r, mk("list"))
        return fm(n, k, r)

    def as_loop(self, n, st):
        """comprehension whose element has effects: the loop it abbreviates"""
        acc = "__acc%d" % len(self.closures)
        body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(acc, ast.Load()), "append", ast.Load()), [n.elt], []))]
        for g in reversed(n.generators):
            for f in reversed(g.ifs):
                body = [ast.If(f, body, [])]
            body = [ast.For(g.target, g.iter, body, [])]
        for b in body:
            ast.copy_location(b, n)
            ast.fix_missing_locations(b)
        names = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        saved = {a: st.env.get(a) for a in names}
        st.env[acc] = self.alloc(st, mk("list"))
        self.exec_block(body, st)
        r = st.env.pop(acc)
        for a, v in saved.items():
            if v is None:
                st.env.pop(a, None)
            else:
                st.env[a] = v
        return r

    def ev_ListComp(self, n, st):
        def leaf(s):
            return mk("list", self.ev(n.elt, s))
        b = st.copy()
        try:
            return self.alloc(st, self.comp(n.generators, 0, st, leaf))
        except Effectful:
            st.become(b)
            return self.as_loop(n, st)

    def ev_GeneratorExp(self, n, st):
        def leaf(s):
            return mk("list", self.ev(n.elt, s))
        b = st.copy()
        try:
            return self.comp(n.generators, 0, st, leaf)
        except Effectful:
            st.become(b)
            return self.as_loop(n, st)

    def ev_SetComp(self, n, st):
        return mk("set", self.ev_GeneratorExp(n, st))

    def ev_DictComp(self, n, st):
        def leaf(s):
            return mk("list", mk("tuple", self.deref(self.ev(n.key, s), s), self.ev(n.value, s)))
        r = self.comp(n.generators, 0, st, leaf)
        if r.op == "list" and all(e.op == "tuple" and e.args[0].op in CONSTS for e in r.args):
            return self.alloc(st, mk("dict", *[(e.args[0], e.args[1]) for e in r.args]))
        return self.alloc(st, mk("dmap", mk("dict"), r))

    def ev_Call(self, n, st):
        # super() forms
        if isinstance(n.func, ast.Name) and n.func.id == "super":
            return self.ev_super(n, st)
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.attr in ("append", "insert", "pop", "remove", "extend", "sort", "reverse", "update"):
            v = st.env.get(n.func.value.id)
            if isinstance(v, T) and v.op in ("idx", "attr") and n.func.attr == "pop" and n.args and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str):
                st.env[n.func.value.id] = self.alloc(st, mk("dmap", v, EMPTYSEQ))
            elif isinstance(v, T) and v.op in ("idx", "attr") and n.func.attr == "update" and n.args and isinstance(n.args[0], ast.Dict):
                st.env[n.func.value.id] = self.alloc(st, mk("dmap", v, EMPTYSEQ))
            elif isinstance(v, T) and freshlist(v):
                st.env[n.func.value.id] = self.alloc(st, v)
        f = self.ev0(n.func, st)
        args = []
        kwargs = {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                x = self.iterable(v, st)
                if x.op in ("list", "tuple"):
                    args.extend(x.args)
                else:
                    args.append(mk("star", self.deref(x, st)))
            else:
                args.append(self.ev(a, st))
        for kw in n.keywords:
            if kw.arg is None:
                d = self.get(st, self.ev(kw.value, st))
                d = self.clean(d)
                self.spread(d, kwargs, st)
            else:
                kwargs[kw.arg] = self.ev(kw.value, st)
        if any(isinstance(v, tuple) for v in kwargs.values()):
            return self.call_cond_kwargs(f, args, kwargs, st)
        return self.call(f, args, kwargs, st, n)

    def spread(self, d, kwargs, st):
        if d.op == "dict":
            for k, v in d.args:
                if k.op == "str":
                    kwargs[k.args[0]] = v
            return
        if d.op == "dmap" and d.args[0].op == "dict":
            for k, v in d.args[0].args:
                if k.op == "str":
                    kwargs[k.args[0]] = v
        if d.op == "ite":
            c, a, b = d.args
            ka, kb = {}, {}
            self.spread(a, ka, st)
            self.spread(b, kb, st)
            for k in list(ka) + [k for k in kb if k not in ka]:
                if k in ka and k in kb:
                    kwargs[k] = condmerge(c, ka[k], kb[k])
                elif k in ka:
                    kwargs[k] = condmerge(c, ka[k], None)
                else:
                    kwargs[k] = condmerge(c, None, kb[k])
            return
        kwargs["**"] = self.deref(d, st)

    def call_cond_kwargs(self, f, args, kwargs, st):
        """keyword present only under a condition: split on it"""
        for k, v in list(kwargs.items()):
            if isinstance(v, tuple):
                c, a, b = v
                s1, s2 = st.copy(), st.copy()
                k1, k2 = dict(kwargs), dict(kwargs)
                for kk in (k1, k2):
                    for q, w in list(kk.items()):
                        if isinstance(w, tuple) and w[0] is c:
                            x = w[1] if kk is k1 else w[2]
                            if x is None:
                                del kk[q]
                            else:
                                kk[q] = x
                v1 = self.call_cond_kwargs(f, args, k1, s1)
                v2 = self.call_cond_kwargs(f, args, k2, s2)
                self.merge_into(st, c, s1, s2)
                return self.merge_val(st, c, v1, v2)
        return self.call(f, args, kwargs, st)

    def ev_super(self, n, st):
        fr = st.fn
        if n.args:
            selft = self.ev(n.args[1], st)
            cref = self.ev(n.args[0], st)
            q = cref.args[1] if cref.op == "ref" else None
        else:
            a = fr.node.args.args
            selft = st.env.get(a[0].arg) if a else None
            q = fr.mod.name + ":" + fr.cls if fr.cls else None
        return mk("super", q, selft)


def _solid(t):
    """a value known to be neither None nor a bool"""
    if t.op == "sym":
        return bool(t.args[1])
    return t.op in ("num", "str", "poly", "list", "tuple", "dict", "nparr", "new", "fm", "fmt", "obj", "loc", "float", "int")


def leafterms(t):
    if t.op == "ite":
        return leafterms(t.args[1]) + leafterms(t.args[2])
    return [t]


class _If(object):
    def __init__(self, c, s):
        self.c, self.s = c, s


def condmerge(c, a, b):
    if a is not None and b is not None and not isinstance(a, tuple) and not isinstance(b, tuple):
        return ite(c, a, b)
    return (c, a, b)


# ------------------------------------------------------------------ helpers

_locmemo = {}


def _hasloc(t):
    r = _locmemo.get(t.dg)
    if r is None:
        r = False
        if t.op in ("loc", "closure"):
            r = True
        else:
            for x in TT._kids(t.args):
                if _hasloc(x):
                    r = True
                    break
        _locmemo[t.dg] = r
    return r


_openmemo = {}


def _open(t):
    """contains a dangling bound variable (is inside a binder)"""
    r = _openmemo.get(t.dg)
    if r is None:
        r = maxbv(t) > 0
        _openmemo[t.dg] = r
    return r


_mbv = {}


def maxbv(t):
    """largest bound-variable level free in t"""
    r = _mbv.get(t.dg)
    if r is None:
        if t.op == "bv":
            r = t.args[0]
        else:
            r = 0
            for x in TT._kids(t.args):
                r = max(r, maxbv(x))
            if t.op in BINDERS:
                r = r if r > t.height else 0
        _mbv[t.dg] = r
    return r


def is_nolist(t):
    return t.op == "list" and not t.args


def ctl_cond(ctl, which):
    if ctl.op == "ctl":
        return TRUE if ctl in which else FALSE
    if ctl.op == "ite":
        return ite(ctl.args[0], ctl_cond(ctl.args[1], which), ctl_cond(ctl.args[2], which))
    return FALSE


def map_leaf(ctl, m):
    if ctl.op == "ite":
        return ite(ctl.args[0], map_leaf(ctl.args[1], m), map_leaf(ctl.args[2], m))
    return m.get(ctl, ctl)


def map_fall(ctl, to):
    return map_leaf(ctl, {FALL: to})


def drop_fall(ctl):
    """the non-fall part (leaves that are FALL become the other branch)"""
    if ctl.op == "ite":
        a, b = drop_fall(ctl.args[1]), drop_fall(ctl.args[2])
        if a is FALL:
            return b
        if b is FALL:
            return a
        return ite(ctl.args[0], a, b)
    return ctl


def exc_leaves(ctl, ret, cond=TRUE):
    if ctl.op == "ite":
        c = ctl.args[0]
        for x in exc_leaves(ctl.args[1], restrict(ret, c, True), band(cond, c)):
            yield x
        for x in exc_leaves(ctl.args[2], restrict(ret, c, False), band(cond, bnot(c))):
            yield x
    elif ctl is EXC:
        names = set(x.args[0] for x in subterms(ret) if x.op == "exc") or {"Exception"}
        for nme in sorted(names):
            yield (cond, nme)


def handler_names(h):
    if h.type is None:
        return ("*",)
    if isinstance(h.type, ast.Tuple):
        return tuple(sorted(_exname(e) for e in h.type.elts))
    return (_exname(h.type),)


def _exname(e):
    return e.id if isinstance(e, ast.Name) else (e.attr if isinstance(e, ast.Attribute) else "?")


def matches(exn, names):
    return "*" in names or "Exception" in names or "BaseException" in names or exn in names


def restrict_bool(t, c, val):
    """t assuming boolean tree c == val"""
    if c is TRUE or c is FALSE:
        return t
    if c.op in CONDOPS:
        return restrict(t, c, val)
    if c.op == "ite" and isboolish(c):
        return constrain(t, c if val else bnot(c))
    return t


def constrain(t, c):
    """generalised cofactor: a term that agrees with t wherever c holds and depends on t only there"""
    if c is TRUE or c is FALSE or not t.conds:
        return t
    if c.op in CONDOPS:
        return restrict(t, c, True)
    if c.op != "ite" or not (c.conds & t.conds):
        if c.op == "ite":
            # implied conditions may still simplify
            v, a, b = c.args
            if a is FALSE:
                return constrain(restrict(t, v, False), b)
            if b is FALSE:
                return constrain(restrict(t, v, True), a)
        return t
    v = c.args[0]
    w = TT._topvar(t)
    if w is not None and (TT.odg(w), w.dg) < (TT.odg(v), v.dg):
        v = w
    a, b = truth(restrict(c, v, True)), truth(restrict(c, v, False))
    if a is FALSE:
        return constrain(restrict(t, v, False), b)
    if b is FALSE:
        return constrain(restrict(t, v, True), a)
    return ite(v, constrain(restrict(t, v, True), a), constrain(restrict(t, v, False), b))


def rowof(t):
    """one row made two-dimensional before it meets an array: what broadcasting does by itself"""
    if t.op == "call" and t.args[0] == "reshape" and len(t.args[1]) == 2 and t.args[1][1].op == "tuple" and len(t.args[1][1].args) == 2 and t.args[1][1].args[0] is num(1) and t.args[1][0].op == "idx" and is_scalar_index(t.args[1][0].args[1]):
        return t.args[1][0]
    if t.op == "ite" and leaves(t) <= 4 and all(rowof(x) is not x for x in t.args[1:]):
        return ite(t.args[0], rowof(t.args[1]), rowof(t.args[2]))
    return t


def boolarr(t):
    """an array of truth values"""
    if t.op == "arr":
        return boolarr(t.args[0]) and t.args[1].op == "list" and all(z.op == "store" and z.args[-1].op == "bool" for z in t.args[1].args)
    return t.op == "call" and t.args[0] in ("BitAnd", "BitOr") and all(boolarr(x) or x.op in CONDOPS or x.op == "idx" and x.args[0].op in CONDOPS for x in t.args[1])


def spread(t):
    """a column repeated along the axis it was given for that: what broadcasting does by itself"""
    if t.op == "call" and t.args[0] == "numpy.repeat" and len(t.args[1]) == 3 and t.args[1][2] is num(1):
        x = t.args[1][0]
        if x.op == "idx" and x.args[1].op == "tuple" and len(x.args[1].args) == 2 and x.args[1].args[1] is NONE:
            return x
    return None


def isboolish(t):
    return t.op == "bool" or t.op in CONDOPS or (t.op == "ite" and isboolish(t.args[1]) and isboolish(t.args[2]))


def numericish(i0, d):
    if i0.op in ("bool", "none", "dict", "loc", "ref", "closure", "undef"):
        return False
    return True


def one_element(t, c, i0, k):
    """every round reads and writes one and the same element: an accumulation in that element"""
    r = strip_prefix(t, c)
    ss = []
    if r is None or not TT._istores(r, ss) or not ss:
        return None
    o = ss[0].args[1]
    if k in o.syms or c in o.syms or any(x.args[1] is not o for x in ss):
        return None
    ix = TT._ituple(o)
    m = fv()
    seen = []

    def go(x):
        if c not in x.syms:
            return x
        if x.op == "idx":
            p, y = [], x
            while y.op == "idx":
                p.append(y.args[1])
                y = y.args[0]
            if y.op == "arr" and y.args[1] is c and (tuple(reversed(p)) == tuple(ix) or len(p) == 1 and p[0] is o):
                seen.append(y.args[0])
                return m
        return rebuild(x, go)

    def after(x, v):
        if x.op == "empty":
            return v
        if x.op == "ite":
            return ite(x.args[0], after(x.args[1], v), after(x.args[2], v))
        if x.op in ("list", "cat"):
            for y in x.args:
                v = after(y, v)
            return v
        if x.op == "store":
            return x.args[2] if x.args[0] == "=" else add(v, x.args[2])
        raise ValueError
    try:
        t2 = after(go(r), m)
    except ValueError:
        return None
    if c in t2.syms or not seen or any(x is not seen[0] for x in seen):
        return None
    m0 = mk("arr", seen[0], i0)
    m0 = TT.aread(seen[0], i0, o) or index(m0, o)
    d = sub(t2, m)
    if m not in d.syms:
        def f(kk):
            j = fv()
            return add(m0, sum_(kk, j, subst(d, {k: j})))
    else:
        f = as_extremum(t2, m, m0, k) or (lambda kk: fold_fresh(kk, m0, k, m, t2))
    return lambda kk: cat(i0, mk("list", mk("store", "=", o, f(kk))))


def own_element(r, c, i0, k):
    """stores r of one round, all to element k of an array: reads of element k see what the loop started from"""
    ss = []
    if not TT._istores(r, ss) or any(TT._ituple(x.args[1])[0] is not k for x in ss):
        return r

    def go(x):
        if c not in x.syms:
            return x
        if x.op == "idx" and x.args[1] is k and x.args[0].op == "arr" and x.args[0].args[1] is c:
            return index(mk("arr", go(x.args[0].args[0]), i0), k)
        return rebuild(x, go)
    return go(r)


def strip_prefix(t, c):
    if t is c:
        return EMPTYSEQ
    if t.op == "cat" and t.args[0] is c:
        return cat(*t.args[1:])
    if t.op == "ite":
        a = strip_prefix(t.args[1], c)
        b = strip_prefix(t.args[2], c)
        if a is None or b is None:
            return None
        if a is EMPTYSEQ:
            a = _emp(b)
        if b is EMPTYSEQ:
            b = _emp(a)
        return ite(t.args[0], a, b)
    return None


def _emp(o):
    x = o
    while x.op == "ite":
        x = x.args[1] if x.args[1] is not EMPTYSEQ else x.args[2]
    if x.op == "list" or (x.op == "cat" and x.args[0].op == "list") or (x.op == "fm" and _fmkind(x) == "list"):
        return mk("list")
    if x.op in ("str", "fmt") or (x.op == "cat" and x.args[0].op in ("str", "fmt")):
        return string("")
    return mk("list")


def _fmkind(x):
    b = x.args[1]
    while b.op in ("ite", "fm"):
        b = b.args[1]
    return b.op


def as_extremum(t, c, i0, k):
    """t = ite(c < x, x, c): running max / min"""
    if t.op in ("max", "min") and c in t.args:
        rest = [x for x in t.args if x is not c]
        if rest and not any(c in x.syms for x in rest):
            x = rest[0] if len(rest) == 1 else lib.extremum(t.op, rest)
            op = t.op + "o"

            def g(kk):
                j = fv()
                return mk("ext2", op[:3], i0, TT._bind(op, kk, j, subst(x, {k: j})))
            return g
    if t.op != "ite":
        return None
    cond, a, b = t.args
    if cond.op != "lt":
        return None
    for x, y in ((a, b), (b, a)):
        if y is c and c not in x.syms:
            d = sub(c, x)
            if (lt(c, x) is cond and x is a) or (le(x, c) is bnot(cond) and x is a):
                op = "maxo"
            elif (lt(x, c) is cond and x is a):
                op = "mino"
            elif x is b and (lt(x, c) is cond):      # if x<c: c else x  -> max
                op = "maxo"
            elif x is b and (lt(c, x) is cond):
                op = "mino"
            else:
                return None

            def f(kk, op=op, x=x):
                j = fv()
                return mk("ext2", op[:3], i0, TT._bind(op, kk, j, subst(x, {k: j})))
            return f
    return None


def as_last(t, c, i0, k):
    """c := v(k) if p(k) else c  ->  value of the last iteration in which p held"""
    if t.op != "ite":
        return None
    ls = leafterms(t)
    if not any(x is c for x in ls) or any(c in x.syms for x in ls if x is not c):
        return None

    def keep(x):
        if x.op == "ite":
            if c in x.args[0].syms:
                raise ValueError
            return ite(x.args[0], keep(x.args[1]), keep(x.args[2]))
        return FALSE if x is c else TRUE
    try:
        p = truth(keep(t))
    except ValueError:
        return None
    v = restrict_bool(t, p, True)
    if c in v.syms:
        return None

    def f(kk):
        j = fv()
        r = brk(kk, j, subst(p, {k: sub(sub(kk, num(1)), j)}))
        return ite(lt(r, kk), subst(v, {k: sub(sub(kk, num(1)), r)}), i0)
    return f


def fold_fresh(kk, v, k, c, t):
    k2, c2 = fv("k"), fv("c")
    return fold(kk, v, k2, c2, subst(t, {k: k2, c: c2}))


def iter_desc(x):
    """(n, elem(k), filter(k)|None) for a symbolic iterable"""
    if x.op == "range":
        if len(x.args) == 2:
            return sub(x.args[1], x.args[0]), (lambda k: add(x.args[0], k)), None
        a, b, s = x.args
        return rangelen(a, b, s), (lambda k: add(a, mul(s, k))), None
    if x.op == "fm":
        body = x.args[1]
        if body.op == "list" and len(body.args) == 1:
            return x.args[0], (lambda k: instantiate_elem(x, k)), None
        if body.op == "ite":
            # filter form: ite tree with leaves [e] / []
            h = body.height + 1

            def elem(k):
                b = subst(body, {mk("bv", h): k})
                return _somelem(b)
            if _filterform(body):
                return x.args[0], elem, (lambda k: _nonempty(subst(body, {mk("bv", h): k})))
    if x.op == "zip":
        ds = [iter_desc(y) for y in x.args]
        if all(d[2] is None for d in ds):
            ns = []
            for d in ds:
                if d[0] is not INF and d[0] not in ns:
                    ns.append(d[0])
            ns = [a for a in ns if not any(b is not a and is_num(sub(a, b)) and sub(a, b).args[0] > 0 for b in ns)]
            n = ns[0] if len(ns) == 1 else (mk("min", *sorted(ns, key=okey)) if ns else INF)
            return n, (lambda k: mk("tuple", *[d[1](k) for d in ds])), None
    if x.op == "enum":
        y, s0 = x.args
        n, e, f = iter_desc(y)
        if f is None:
            return n, (lambda k: mk("tuple", add(s0, k), e(k))), None
    if x.op in ("list", "tuple"):
        return num(len(x.args)), (lambda k: index(x, k)), None
    if x.op == "nparr":
        return iter_desc_np(x)
    if x.op == "keys":
        return length(x.args[0]), (lambda k: app("key", x.args[0], k)), None
    if x.op == "values":
        return length(x.args[0]), (lambda k: index(x.args[0], app("key", x.args[0], k))), None
    if x.op == "items":
        return length(x.args[0]), (lambda k: mk("tuple", app("key", x.args[0], k), index(x.args[0], app("key", x.args[0], k)))), None
    if x.op == "rev":
        n, e, f = iter_desc(x.args[0])
        if f is None:
            return n, (lambda k: e(sub(sub(n, num(1)), k))), None
    return length(x), (lambda k: index(x, k)), None


def iter_desc_np(x):
    n, e, f = iter_desc(x.args[0])

    def el(k):
        r = e(k)
        return nparr(r) if r.op in ("list", "fm", "cat", "tuple") else r
    return n, el, f


def _filterform(b):
    if b.op == "ite":
        return _filterform(b.args[1]) and _filterform(b.args[2])
    return b.op == "empty" or (b.op == "list" and len(b.args) <= 1)


def _somelem(b):
    if b.op == "ite":
        x, y = _somelem(b.args[1]), _somelem(b.args[2])
        if x is None:
            return y
        if y is None:
            return x
        return ite(b.args[0], x, y)
    return b.args[0] if b.op == "list" and b.args else None


def _nonempty(b):
    if b.op == "ite":
        return ite(b.args[0], _nonempty(b.args[1]), _nonempty(b.args[2]))
    return TRUE if b.op == "list" and b.args else FALSE


def norm_index(i):
    if isbool(i):
        return mask(i)
    if i.op == "tuple":
        i = mk("tuple", *[mask(y) for y in i.args])
        a = list(i.args)
        while len(a) > 1 and a[-1] is FULL:
            a.pop()
        if len(a) == 1:
            return a[0]
        return mk("tuple", *a)
    return i


def select(c, i):
    """read-over-write on an arr content; None when undecided"""
    st = c.args[1]
    if st is EMPTYSEQ or is_nolist(st):
        return None
    if st.op == "list":
        for e in reversed(st.args):
            if e.op != "store":
                return None
            if e.args[1] is i:
                if e.args[0] == "=":
                    return e.args[2]
                return None
            d = sub(e.args[1], i) if e.args[1].op in ("num", "poly", "fv", "sym") and i.op in ("num", "poly", "fv", "sym") else None
            if d is None or not is_num(d) or d.args[0] == 0:
                return None
        return None
    if st.op == "cat" and st.args[-1].op == "list":
        for e in reversed(st.args[-1].args):
            if e.op != "store":
                return None
            if e.args[1] is i:
                return e.args[2] if e.args[0] == "=" else None
            d = sub(e.args[1], i) if e.args[1].op in ("num", "poly", "fv", "sym") and i.op in ("num", "poly", "fv", "sym") else None
            if d is None or not is_num(d) or d.args[0] == 0:
                return None
    return None
