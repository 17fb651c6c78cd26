"""Models of builtins, numpy and other library calls as terms."""
import ast
import re
from fractions import Fraction
from .terms import *
from . import terms as TT

ALIASES = {
    "builtins.abs": "builtins.abs",
    "numpy.absolute": "numpy.abs",
    "numpy.asarray": "numpy.array",
    "numpy.float": "builtins.float",
    "numpy.row_stack": "numpy.vstack",
    "os.path.abspath": "os.path.abspath",
    "math.sqrt": "numpy.sqrt",
    "math.ceil": "numpy.ceil",
    "math.floor": "numpy.floor",
    "math.pow": "builtins.pow",
    "numpy.power": "builtins.pow",
    "math.sin": "numpy.sin", "math.cos": "numpy.cos", "math.pi": "numpy.pi",
    "math.exp": "numpy.exp", "math.log": "numpy.log", "math.fabs": "builtins.abs",
    "numpy.matmul": "matmul", "numpy.dot": "matmul",
    "numpy.concat": "numpy.concatenate",
}


def canon(d):
    return ALIASES.get(d, d)


ALLOC = {"numpy.zeros", "numpy.ones", "numpy.empty", "numpy.full", "numpy.zeros_like", "numpy.ones_like", "numpy.full_like",
         "numpy.copy", "torch.zeros", "torch.ones", "torch.empty", "torch.zeros_like"}

EFFECTS = {"os.mkdir", "os.makedirs", "os.remove", "os.unlink", "os.rename", "os.replace", "os.rmdir", "os.removedirs", "os.system", "os.chdir",
           "os.chmod", "os.link", "os.symlink", "os.truncate", "os.mknod", "os.popen", "os.putenv", "os.kill",
           "shutil.rmtree", "shutil.copy", "shutil.copyfile", "shutil.copy2", "shutil.move", "shutil.copytree",
           "numpy.save", "numpy.savetxt", "numpy.savez", "numpy.savez_compressed", "torch.save", "pickle.dump", "json.dump",
           "subprocess.run", "subprocess.call", "subprocess.Popen", "subprocess.check_call", "subprocess.check_output",
           "random.shuffle", "numpy.random.shuffle", "numpy.random.seed", "warnings.filterwarnings"}

REDUCE = {"numpy.max", "numpy.min", "numpy.mean", "numpy.sum", "numpy.prod", "numpy.median", "numpy.std", "numpy.argmax", "numpy.argmin", "numpy.concatenate", "numpy.cumsum", "numpy.argsort", "numpy.unique"}
QUIET = {"builtins.print", "warnings.warn", "builtins.setattr_", "logging.info", "logging.warning"}

SIGS = {
    "numpy.save": ["file", "arr"], "numpy.concatenate": ["arrays", "axis"], "numpy.sum": ["a", "axis"], "numpy.max": ["a", "axis"],
    "numpy.min": ["a", "axis"], "numpy.mean": ["a", "axis"], "numpy.any": ["a", "axis"], "numpy.all": ["a", "axis"],
    "numpy.zeros": ["shape", "dtype"], "numpy.ones": ["shape", "dtype"], "numpy.repeat": ["a", "repeats", "axis"],
    "numpy.insert": ["arr", "obj", "values", "axis"], "numpy.count_nonzero": ["a", "axis"], "numpy.argsort": ["a", "axis"],
    "numpy.where": ["condition", "x", "y"], "numpy.linalg.norm": ["x", "ord", "axis"], "numpy.reshape": ["a", "newshape"],
    "numpy.load": ["file"], "numpy.loadtxt": ["fname"], "numpy.cumsum": ["a", "axis"], "numpy.vstack": ["tup"], "numpy.hstack": ["tup"],
    "numpy.linspace": ["start", "stop", "num"], "numpy.transpose": ["a", "axes"], "numpy.expand_dims": ["a", "axis"],
    "numpy.unique": ["ar"], "numpy.stack": ["arrays", "axis"], "numpy.delete": ["arr", "obj", "axis"], "numpy.split": ["ary", "indices_or_sections", "axis"],
    "os.makedirs": ["name"], "os.mkdir": ["path"], "shutil.rmtree": ["path"], "os.remove": ["path"],
}
DEFAULTS = {("numpy.concatenate", "axis"): num(0), ("numpy.sum", "axis"): NONE, ("numpy.max", "axis"): NONE, ("numpy.min", "axis"): NONE,
            ("numpy.mean", "axis"): NONE, ("numpy.any", "axis"): NONE, ("numpy.count_nonzero", "axis"): NONE, ("numpy.argsort", "axis"): num(-1),
            ("numpy.stack", "axis"): num(0), ("numpy.cumsum", "axis"): NONE, ("numpy.linalg.norm", "axis"): NONE,
            ("numpy.linalg.norm", "ord"): NONE, ("numpy.repeat", "axis"): NONE}


# ---------------------------------------------------------------- formatting

_specre = re.compile(r"^(?:(.)?([<>=^]))?([+\- ])?(#)?(0)?(\d+)?([,_])?(?:\.(\d+))?([a-zA-Z%])?$")


def normspec(s):
    if not isinstance(s, str):
        return s
    m = _specre.match(s)
    if not m:
        return s
    fill, align, sign, alt, zero, width, grp, prec, ty = m.groups()
    if zero and not align:
        fill, align = "0", ">"
    if align and fill is None:
        fill = " "
    if ty in ("d", "s"):
        ty = ""
    if not width or int(width) <= 1:
        align = fill = None
        width = ""
    return "%s%s|%s|%s|%s|%s" % (fill or "", align or "", sign or "", width or "", prec or "", ty or "")


def fmt(x, spec=""):
    sp = normspec(spec) if isinstance(spec, str) else spec
    if isinstance(sp, str) and sp in ("", "|||||"[:0], "|||||", "||||"):
        sp = ""
    if sp == "|||||"[:4]:
        sp = ""
    if isinstance(spec, str) and spec in ("", "s", "d"):
        sp = ""
    if x.op == "ite":
        return ite(x.args[0], fmt(x.args[1], spec), fmt(x.args[2], spec))
    if sp == "":
        if x.op == "str":
            return x
        if x.op == "fmt":
            return x
        if x.op == "cat" and any(p.op in ("str", "fmt", "join") for p in x.args):
            return cat(*[fmt(p) for p in x.args])
        if x.op == "num" and x.args[0].denominator == 1:
            return string(str(x.args[0]))
        if x.op == "join":
            return x
        return mk("fmt", x, "")
    if x.op == "str" and isinstance(spec, str):
        try:
            return string(format(x.args[0], spec))
        except Exception:
            pass
    if x.op == "num" and isinstance(spec, str) and x.args[0].denominator == 1:
        try:
            return string(format(int(x.args[0]), spec))
        except Exception:
            pass
    return mk("fmt", x, sp)


_fre = re.compile(r"\{\{|\}\}|\{([^{}]*(?:\{[^{}]*\}[^{}]*)*)\}")


def str_format(s, args, kwargs):
    out = []
    pos = 0
    auto = 0
    for m in _fre.finditer(s):
        out.append(string(s[pos:m.start()]))
        pos = m.end()
        g = m.group(0)
        if g == "{{":
            out.append(string("{"))
            continue
        if g == "}}":
            out.append(string("}"))
            continue
        inner = m.group(1)
        spec = ""
        if ":" in inner:
            inner, spec = inner.split(":", 1)
        conv = None
        if "!" in inner:
            inner, conv = inner.split("!", 1)
        mm = re.match(r"^([A-Za-z_0-9]*)(.*)$", inner)
        key, rest = mm.group(1), mm.group(2)
        if key == "":
            v = args[auto] if auto < len(args) else mk("indexerror")
            auto += 1
        elif key.isdigit():
            v = args[int(key)] if int(key) < len(args) else mk("indexerror")
        else:
            v = kwargs.get(key, mk("keyerror", string(key)))
        if rest:
            v = app("call", "fmtpath" + rest, (v,), ())
        out.append(fmt(v, spec))
    out.append(string(s[pos:]))
    return cat(*out)


_pre = re.compile(r"%(?:\((\w+)\))?([#0\- +]*)(\d+|\*)?(?:\.(\d+))?([diouxXeEfFgGcrs%])")


def percent_format(s, args):
    out = []
    pos = 0
    i = 0
    for m in _pre.finditer(s):
        out.append(string(s[pos:m.start()]))
        pos = m.end()
        name, flags, width, prec, ty = m.groups()
        if ty == "%":
            out.append(string("%"))
            continue
        if i >= len(args):
            out.append(mk("fmt", mk("indexerror"), ""))
            continue
        v = args[i]
        i += 1
        spec = ""
        if "-" in flags and width:
            spec = "<"
        elif "0" in flags and width:
            spec = "0>"
        elif width:
            spec = ">"
        if "+" in flags:
            spec += "+"
        spec += width or ""
        if prec:
            spec += "." + prec
        if ty not in "dis":
            spec += ty
        out.append(fmt(v, spec))
    out.append(string(s[pos:]))
    return cat(*out)


# ---------------------------------------------------------------- argument terms

def argterm(I, a, st):
    if a.op == "closure":
        c = I.closures[a.args[0]]
        n = len(c.node.args.args)
        return I.fn_term(a, n, st)
    if a.op == "bound":
        got = I.method(a.args[1], a.args[2])
        if got is not None and isinstance(got[3], ast.FunctionDef):
            n = len(got[3].args.args) - (0 if got[0] == "static" else 1)
            return I.fn_term(a, n, st)
    if a.op == "ref" and a.args[0] == "func":
        mod, name = a.args[1].split(":")
        node = I.prog.module(mod).binds[name][1]
        return I.fn_term(a, len(node.args.args), st)
    return I.deref(a, st)


def uncall(I, q, args, kwargs, st):
    args = [argterm(I, a, st) for a in args]
    kwargs = {k: argterm(I, v, st) for k, v in kwargs.items()}
    sig = SIGS.get(q)
    if sig:
        pos = []
        for i, p in enumerate(sig):
            if i < len(args):
                pos.append(args[i])
            elif p in kwargs:
                pos.append(kwargs.pop(p))
            elif (q, p) in DEFAULTS:
                pos.append(DEFAULTS[(q, p)])
            else:
                pos.append(None)
        pos += args[len(sig):]
        for i, p in enumerate(sig):
            if pos[i] is None:
                pos[i] = UNDEF
        while pos and pos[-1] is UNDEF:
            pos.pop()
        args = pos
    if q in REDUCE and args and args[0].op == "nparr" and args[0].args[0].op in ("fm", "list", "cat"):
        args = [args[0].args[0]] + list(args[1:])
    return app("call", q, tuple(args), tuple(sorted(kwargs.items())))


def seqof(I, x, st):
    """iterable argument as a sequence term"""
    y = I.iterable(x, st)
    return y


def call_ext(I, q, args, kwargs, st):
    D = lambda x: I.deref(x, st)
    nm = q.split(".")[-1]
    if q.startswith("builtins."):
        r = builtin(I, nm, args, kwargs, st)
        if r is not None:
            return r
    if q in QUIET:
        return NONE
    if q in ("multiprocessing.Pool", "multiprocessing.pool.Pool"):
        I.pools.append(D(args[0]) if args else D(kwargs["processes"]) if "processes" in kwargs else NONE)
    if q == "linecache.getline":
        a = list(args) + [kwargs.get("filename"), kwargs.get("lineno")]
        a = [x for x in a if x is not None]
        return index(mk("lines", fmtpath(D(a[0]))), sub(D(a[1]), num(1)))
    if q == "linecache.getlines":
        return mk("lines", fmtpath(D(args[0])))
    if q == "io.StringIO":
        return I.alloc(st, mk("handle", string("<memory>"), string("mem@0" if args else "mem"), fmt(D(args[0])) if args else EMPTYSEQ, num(0)))
    if q in ("linecache.clearcache", "linecache.checkcache", "gc.collect"):
        return NONE
    if q in ("copy.deepcopy", "copy.copy"):
        x = args[0]
        if x.op == "loc":
            c = I.deref(x, st) if q == "copy.deepcopy" else st.heap[x.args[0]]
            if c.op in ("list", "fm", "cat", "dict", "obj", "arr", "dmap", "ite"):
                return I.alloc(st, c)
            return c
        x = D(x)
        if x.op in CONSTS:
            return x
        return I.alloc(st, x)
    if q == "numpy.array":
        x = args[0] if args else kwargs.get("object", NONE)
        r = npa(D(x))
        dt = kwargs.get("dtype") if "dtype" in kwargs else (args[1] if len(args) > 1 else None)
        if dt is not None and D(dt) is not NONE:
            r = app("call", "astype", (r, D(dt)), ())
        return I.alloc(st, mk("arr", r, EMPTYSEQ))
    if q in ("numpy.sqrt", "torch.sqrt"):
        return sqrt(D(args[0]))
    if q in ("numpy.abs",):
        return absv(D(args[0]))
    if q == "builtins.dict.fromkeys" and len(args) in (1, 2) and not kwargs:
        x, k = I.iterable(args[0], st), fv("k")
        v = D(args[1]) if len(args) == 2 else NONE
        if x.op in ("list", "tuple") and all(e.op in CONSTS for e in x.args):
            return I.alloc(st, mk("dict", *[(e, v) for e in dict.fromkeys(x.args)]))
        return I.alloc(st, mk("dmap", mk("dict"), fm(length(D(x)), k, mk("list", mk("tuple", index(D(x), k), v)))))
    if q == "numpy.where" and len(args) == 3 and not kwargs:
        c, x, y = [D(a) for a in args]
        return ite(truth(c), x, y)
    if q == "numpy.zeros_like" and len(args) == 1 and not kwargs:
        x = D(args[0])
        while x.op == "arr":
            x = x.args[0]
        if x.op == "call" and x.args[0] == "numpy.zeros" and len(x.args[1]) == 1 and not x.args[2]:
            return I.alloc(st, mk("arr", x, EMPTYSEQ))
    if q == "numpy.reciprocal" and len(args) == 1 and not kwargs:
        return power(D(args[0]), num(-1))
    if q == "numpy.repeat" and len(args) >= 2 and D(args[1]) is num(1):
        return D(args[0])
    if q in ("numpy.logical_and", "numpy.logical_or") and len(args) == 2 and not kwargs:
        return (band if q.endswith("and") else bor)(truth(D(args[0])), truth(D(args[1])))
    if q == "numpy.logical_not" and len(args) == 1 and not kwargs:
        return bnot(truth(D(args[0])))
    if q == "numpy.square":
        return power(D(args[0]), num(2))
    if q in ("numpy.floor", "numpy.ceil"):
        return app(nm, D(args[0]))
    if q in ("numpy.maximum", "numpy.minimum"):
        return app("call", q, tuple(sorted((D(args[0]), D(args[1])))), ())
    if q in ("numpy.add",):
        return add(D(args[0]), D(args[1]))
    if q in ("numpy.subtract",):
        return sub(D(args[0]), D(args[1]))
    if q in ("numpy.multiply",):
        return mul(D(args[0]), D(args[1]))
    if q in ("numpy.divide", "numpy.true_divide"):
        return div(D(args[0]), D(args[1]))
    if q == "numpy.sum" and len(args) == 1 and not kwargs:
        x = D(args[0])
        y = x.args[0] if x.op == "nparr" else x
        if y.op in ("list",) and all(e.op not in ("list", "fm", "tuple") for e in y.args):
            return sumseq(y)
    if q == "numpy.linalg.norm" and len(args) == 1 and not kwargs:
        return app("call", "norm", (D(args[0]),), ())
    if q in ("numpy.transpose",) and len(args) == 1 and not kwargs:
        return app("call", "transpose", (D(args[0]),), ())
    if q in ("numpy.ravel",):
        return reshape(D(args[0]), mk("tuple", num(-1)))
    if q == "numpy.reshape":
        sh = D(args[1] if len(args) > 1 else kwargs.get("newshape", kwargs.get("shape", NONE)))
        return reshape(D(args[0]), sh if sh.op in ("tuple", "list") else mk("tuple", sh))
    if q == "numpy.expand_dims" and len(args) + len(kwargs) == 2 and args:
        ax = D(args[1] if len(args) > 1 else kwargs.get("axis", NONE))
        if ax.op == "num" and ax.args[0] >= 0 and ax.args[0].denominator == 1:
            k = int(ax.args[0])
            return index(D(args[0]), mk("tuple", *([mk("slice", NONE, NONE, NONE)] * k + [NONE])) if k else NONE)
    if q == "numpy.arange":
        a = [D(x) for x in args]
        if len(a) == 1:
            return mk("range", num(0), a[0])
        if len(a) == 2:
            return mk("range", a[0], a[1])
    if q == "os.path.join":
        ps = [fmt(D(a)) if D(a).op != "str" else D(a) for a in args]
        out = [ps[0]]
        for p in ps[1:]:
            out += [string("/"), p]
        return cat(*out)
    if q == "os.path.exists" or q in ("os.path.isdir", "os.path.isfile"):
        return mk("boolcall", q, fmtpath(D(args[0])))
    if q in ("multiprocessing.Pool", "multiprocessing.pool.Pool"):
        p = D(args[0]) if args else D(kwargs.get("processes", NONE))
        I.event(st, mk("ev", "pool", (p,), ()))
        return mk("call", "multiprocessing.Pool", (), ())
    if q == "functools.partial":
        pass
    if q in ALLOC:
        r = uncall(I, q, args, kwargs, st)
        return I.alloc(st, mk("arr", r, EMPTYSEQ))
    if q in EFFECTS:
        r = uncall(I, q, args, kwargs, st)
        def evs(r):
            if r.op == "ite":
                return ite(r.args[0], evs(r.args[1]), evs(r.args[2]))
            a, k = (r.args[1], r.args[2]) if r.op == "call" else ((r,), ())
            return mk("list", mk("ev", q, tuple(normpath(q, i, x) for i, x in enumerate(a)), k))
        e = evs(r)
        st.trace = cat(st.trace, e) if st.trace is not EMPTYSEQ else e
        return NONE if nm not in ("popen",) else r
    r = uncall(I, q, args, kwargs, st)
    return r


def normpath(q, i, x):
    if i == 0:
        return fmtpath(x)
    return x


def fmtpath(x):
    if x.op == "ite":
        return ite(x.args[0], fmtpath(x.args[1]), fmtpath(x.args[2]))
    if x.op == "fmt" and x.args[1] == "":
        return x.args[0]
    return x


def npa(v):
    if v.op == "ite":
        return ite(v.args[0], npa(v.args[1]), npa(v.args[2]))
    v = seqterm(v)
    if v.op in ("nparr", "undef", "unk"):
        return v
    return nparr(v) if v.op in ("list", "tuple", "fm", "cat", "empty") else app("call", "asarray", (v,), ())


def seqterm(v):
    if v.op == "range":
        k = fv()
        return fm(length(v), k, mk("list", index(v, k)))
    return v


def absv(x):
    def f(y):
        if is_num(y):
            return num(abs(y.args[0]))
        p = to_poly(y)
        n = {m: -c for m, c in p.items()}
        a, b = from_poly(p), from_poly(n)
        return mk("abs", min(a, b, key=lambda t: (TT.odg(t), t.dg)))
    return lift(f, x)


def sumseq(y):
    if y.op in ("list", "tuple"):
        r = num(0)
        for e in y.args:
            r = add(r, e)
        return r
    if y.op == "empty":
        return num(0)
    if y.op == "ite":
        return ite(y.args[0], sumseq(y.args[1]), sumseq(y.args[2]))
    if y.op == "fm":
        body = y.args[1]
        h = body.height + 1
        v = fv()
        b = subst(body, {mk("bv", h): v})
        s = sumseq(b)
        if s is not None:
            return sum_(y.args[0], v, s)
        return None
    if y.op == "cat":
        r = num(0)
        for p in y.args:
            s = sumseq(p)
            if s is None:
                return None
            r = add(r, s)
        return r
    return None


CXXB = {"__deref__", "__free__", "__flowoff__", "__touch__", "__rows__", "__freed__", "__carray__", "__unk__", "__cmod__", "__cvector__", "__cresize__", "__ccount__", "__row__", "__csort__"}


def cxxbuiltin(I, nm, args, st):
    D = lambda x: I.deref(x, st)
    if nm == "__carray__":
        return I.alloc(st, mk("carray", *[D(a) for a in args]))
    if nm == "__free__":
        x = args[0]
        if x.op == "loc":
            c = st.heap.get(x.args[0])
            if c is not None and c.op == "freed":
                I.fault(st, "released twice", c)
            elif c is not None and c.op != "obj":
                st.heap[x.args[0]] = mk("freed", c)
        return NONE
    if nm == "__deref__":
        x = args[0]
        if x is NONE:
            I.fault(st, "null pointer followed", NONE)
            return unk("null pointer")
        c = st.heap.get(x.args[0]) if x.op == "loc" else None
        if c is not None and c.op == "obj":
            return x
        return I.getitem(x, num(0), st)
    if nm == "__flowoff__":
        I.fault(st, "reached without a return statement", None)
        return NONE
    if nm == "__freed__":
        c = st.heap.get(args[0].args[0]) if args[0].op == "loc" else None
        return TRUE if c is not None and c.op == "freed" else FALSE if c is not None and c.op in ("carray", "arr", "list", "fm") else unk("released?")
    if nm == "__rows__":
        what = args[1].args[0]
        args = [args[0]] + list(args[2:])
        if args[0].op == "loc":
            c = st.heap.get(args[0].args[0])
            if c is not None and (c.op == "carray" or c.op == "arr" and c.args[0].op == "carray"):
                I.rows(args[0].args[0], mk("arr", c, EMPTYSEQ) if c.op == "carray" else c, [D(a) for a in args[1:]], st, what)
        nm = "__touch__"
    if nm == "__touch__":
        if args[0].op == "loc":
            c = st.heap.get(args[0].args[0])
            if c is not None and c.op == "freed":
                I.fault(st, "used after it was released", c)
            elif c is not None and (c.op == "carray" or c.op == "arr" and c.args[0].op == "carray"):
                I.bounds(mk("arr", c, EMPTYSEQ) if c.op == "carray" else c, mk("tuple", *[D(a) for a in args[1:]]), st, "row")
        return NONE
    if nm == "__unk__":
        I.tainted = "c++ " + str(D(args[0]).args[0])
        return unk(I.tainted)
    if nm == "__cmod__":
        a, b = D(args[0]), D(args[1])
        if is_num(a) and is_num(b) and b.args[0] != 0:
            import math
            return num(int(math.fmod(a.args[0], b.args[0])))
        if is_num(b) and b.args[0] == 2:
            return mod(a, b)
        return app("call", "cmod", (a, b), ())
    if nm == "__cvector__":
        n = D(args[0])
        v = D(args[1]) if len(args) > 1 else num(0)
        return I.alloc(st, fm(n, fv(), mk("list", v)))
    if nm == "__cresize__":
        x, n = D(args[0]), D(args[1])
        v = D(args[2]) if len(args) > 2 else num(0)
        if x.op in ("list", "empty") and not x.args:
            return I.alloc(st, fm(n, fv(), mk("list", v)))
        return I.alloc(st, app("call", "resized", (x, n, v), ()))
    if nm == "__ccount__":
        x, k = functional(I.clean(D(args[0]))), fv()
        return sum_(length(x), k, ite(eq(index(x, k), D(args[1])), num(1), num(0)))
    if nm == "__csort__":
        a, b = fv("l"), fv("l")
        f = args[1]
        cl = I.clsof(st, f)
        if cl:
            f = I.attr(f, "op_call__2", st)
        x = functional(I.clean(D(args[0])))
        k, n = fv(), length(x)
        ident = fm(n, k, mk("list", k))
        if x is ident or x.op == "range":
            c = truth(D(I.call(f, [a, b], {}, st)))
        else:
            c = truth(D(I.call(f, [index(x, a), index(x, b)], {}, st)))
        order = app("call", "csorted", (ident, lam([a, b], functional(c))), ())
        if x is not ident and x.op != "range":
            order = fm(n, k, mk("list", index(x, index(order, k))))
        if args[0].op == "loc":
            st.heap[args[0].args[0]] = order
        else:
            I.setslice(args[0], st) if hasattr(I, "setslice") else None
        return NONE
    if nm == "__row__":
        return I.alloc(st, D(args[0]))
    return None


def builtin(I, nm, args, kwargs, st):
    D = lambda x: I.deref(x, st)
    if nm in CXXB:
        return cxxbuiltin(I, nm, args, st)
    if nm == "len" and len(args) == 1:
        x = I.get(st, args[0])
        if x.op == "obj":
            if I.method(x.args[0], "__len__"):
                return I.call(mk("bound", "method", x.args[0], "__len__", args[0]), [], {}, st)
        cl = I.clsof(st, args[0])
        if cl and I.method(cl, "__len__"):
            return I.call(mk("bound", "method", cl, "__len__", args[0]), [], {}, st)
        return length(I.clean(D(x)))
    if nm == "slice" and 1 <= len(args) <= 3 and not kwargs:
        a = [D(x) for x in args]
        a = [NONE] + a + [NONE] if len(a) == 1 else (a + [NONE])[:3]
        return mk("slice", NONE if a[0] is num(0) else a[0], *a[1:])
    if nm == "range":
        a = [D(x) for x in args]
        if len(a) == 1:
            return mk("range", num(0), a[0])
        if len(a) == 2:
            return mk("range", a[0], a[1])
        if is_num(a[2]) and a[2].args[0] == 1:
            return mk("range", a[0], a[1])
        return mk("range", *a)
    if nm == "enumerate":
        s0 = D(args[1]) if len(args) > 1 else (D(kwargs["start"]) if "start" in kwargs else num(0))
        x = I.iterable(args[0], st)
        if x.op in ("list", "tuple"):
            return mk("list", *[mk("tuple", add(s0, num(i)), e) for i, e in enumerate(x.args)])
        x = I.deref(x, st)
        if x.op in ("list", "tuple"):
            return mk("list", *[mk("tuple", add(s0, num(i)), e) for i, e in enumerate(x.args)])
        return mk("enum", x, s0)
    if nm == "zip":
        xs = [I.iterable(a, st) for a in args]
        if not all(x.op in ("list", "tuple") for x in xs):
            xs = [I.deref(x, st) for x in xs]
        if xs and all(x.op in ("list", "tuple") for x in xs):
            n = min(len(x.args) for x in xs)
            return mk("list", *[mk("tuple", *[x.args[i] for x in xs]) for i in range(n)])
        return mk("zip", *xs)
    if nm == "reversed":
        x = I.deref(I.iterable(args[0], st), st)
        if x.op in ("list", "tuple"):
            return mk("list", *reversed(x.args))
        return mk("rev", x)
    if nm in ("list", "tuple"):
        if not args:
            return I.alloc(st, mk("list")) if nm == "list" else mk("tuple")
        x = I.deref(I.iterable(args[0], st), st)
        if x.op == "tuple" or x.op == "list":
            r = mk(nm, *x.args)
        elif x.op == "zip" or x.op == "enum" or x.op == "range" or x.op == "keys" or x.op == "values" or x.op == "items":
            from .pyint import iter_desc
            n, e, f = iter_desc(x)
            if n is not INF and f is None:
                k = fv()
                if x.op in ("keys", "values", "items"):
                    r = x
                else:
                    r = fm(n, k, mk("list", e(k)))
            else:
                r = x
        elif x.op in ("fm", "cat", "empty", "set", "call", "idx", "sub", "meth", "attr", "nparr", "arr", "sym", "fv", "ite", "sortd", "lines"):
            r = x if x.op != "empty" else mk("list")
        else:
            r = x
        return I.alloc(st, r) if nm == "list" else r
    if nm == "dict":
        if not args:
            return I.alloc(st, mk("dict", *[(string(k), v) for k, v in kwargs.items()]))
        x = D(args[0])
        if x.op in ("dict", "dmap"):
            return I.alloc(st, x)
        if x.op == "zip" and len(x.args) == 2:
            from .pyint import iter_desc
            n, e, f = iter_desc(x)
            k = fv()
            return I.alloc(st, mk("dmap", mk("dict"), fm(n, k, mk("list", e(k)))))
        if x.op == "list" and all(p.op in ("tuple", "list") and len(p.args) == 2 for p in x.args):
            if all(p.args[0].op in CONSTS for p in x.args):
                return I.alloc(st, mk("dict", *[(p.args[0], p.args[1]) for p in x.args]))
        return app("call", "dict", (x,), ())
    if nm == "set":
        return mk("set", D(I.iterable(args[0], st))) if args else mk("set", mk("list"))
    if nm == "fromkeys":
        pass
    if nm in ("int", "float"):
        if not args:
            return num(0)
        x = D(args[0])
        return cast(nm, x)
    if nm == "str":
        x = D(args[0]) if args else string("")
        return fmt(x)
    if nm == "bool":
        return truth(D(args[0]))
    if nm == "abs":
        return absv(D(args[0]))
    if nm == "round":
        return app("round", *[D(a) for a in args])
    if nm == "pow":
        return power(D(args[0]), D(args[1]))
    if nm == "sum":
        x = D(I.iterable(args[0], st))
        s = sumseq(x)
        if s is None:
            s = app("call", "sumof", (x,), ())
        if len(args) > 1:
            s = add(s, D(args[1]))
        return s
    if nm in ("max", "min"):
        if len(args) == 1 and not kwargs:
            x = D(I.iterable(args[0], st))
            if x.op in ("list", "tuple"):
                return extremum(nm, x.args)
            return app("call", nm, (x,), ())
        if kwargs:
            return uncall(I, "builtins." + nm, [I.iterable(args[0], st)] + list(args[1:]), kwargs, st)
        return extremum(nm, [D(a) for a in args])
    if nm in ("any", "all"):
        x = D(I.iterable(args[0], st))
        return anyall(nm, x)
    if nm == "sorted":
        x = D(I.iterable(args[0], st))
        key = kwargs.get("key")
        rev = kwargs.get("reverse")
        kt = argterm(I, key, st) if key is not None else NONE
        if kt.op == "lam" and kt.args[0] == 1 and kt.args[1].op == "bv":
            kt = NONE
        return I.alloc(st, sorted_(x, kt, D(rev) if rev is not None else FALSE))
    if nm == "map":
        fnt = args[0]
        x = D(I.iterable(args[1], st))
        return mapterm(I, fnt, x, st)
    if nm == "filter":
        pass
    if nm == "isinstance":
        a, b = D(args[0]), D(args[1])
        return mk("isinst", a, b)
    if nm == "print":
        return NONE
    if nm == "open":
        p = fmtpath(D(args[0] if args else kwargs.get("file", NONE)))
        m = D(args[1]) if len(args) > 1 else D(kwargs.get("mode", string("r")))
        loc = I.alloc(st, mk("handle", p, m, EMPTYSEQ, num(0)))
        I.event(st, mk("ev", "open", (p, m, loc), ()))
        return loc
    if nm == "type" and len(args) == 1:
        cl = I.clsof(st, args[0])
        if cl:
            return mk("ref", "class", cl)
    if nm == "getattr" and len(args) >= 2 and D(args[1]).op == "str":
        v = I.attr(args[0], D(args[1]).args[0], st)
        if v.op == "vmeth":
            return value_attr(I, v.args[0], v.args[1], st)
        return v
    if nm == "setattr" and len(args) == 3 and D(args[1]).op == "str":
        I.setattr_(args[0], D(args[1]).args[0], args[2], st)
        return NONE
    if nm == "callable":
        return app("call", "callable", (D(args[0]),), ())
    if nm == "iter":
        return args[0]
    return None


def cast(nm, x):
    def f(y):
        if y.op == "num":
            if nm == "float":
                return y
            return num(int(y.args[0]))
        if y.op == "str":
            try:
                return num(float(y.args[0]) if nm == "float" else int(y.args[0]))
            except ValueError:
                pass
        if nm == "int" and (y.op in ("len", "int", "floor", "ceil", "floordiv")):
            return y
        if nm == "float" and y.op in ("float",):
            return y
        if y.op == "meth" and y.args[1] in ("strip", "lstrip", "rstrip") and not y.args[2]:
            return mk(nm, y.args[0])
        return mk(nm, y)
    return lift(f, x)


def extremum(nm, xs):
    out = []
    c = None
    for x in xs:
        if x.op == nm:
            out.extend(x.args)
        else:
            out.append(x)
    nums = [x for x in out if is_num(x)]
    rest = sorted(set(x for x in out if not is_num(x)), key=lambda t: t.dg)
    if nums:
        v = (max if nm == "max" else min)(x.args[0] for x in nums)
        rest.append(num(v))
    if len(rest) == 1:
        return rest[0]
    return mk(nm, *sorted(rest, key=okey))


def sorted_(x, key, rev):
    if x.op == "enum" and key.op == "lam" and key.args[0] == 1:
        y, s0 = x.args
        h = key.args[1].height + 1
        i = fv("l")
        k = subst(key.args[1], {mk("bv", h, 0): mk("tuple", add(s0, i), index(y, i))})
        s = mk("sortd", mk("range", num(0), length(y)), lam([i], k), rev)
        v = fv()
        e = index(s, v)
        return fm(length(s), v, mk("list", mk("tuple", add(s0, e), index(y, e))))
    return mk("sortd", x, key, rev)


def anyall(nm, x):
    if x.op in ("list", "tuple"):
        r = FALSE if nm == "any" else TRUE
        for e in x.args:
            r = bor(r, e) if nm == "any" else band(r, e)
        return r
    if x.op == "fm" and x.args[1].op == "list" and len(x.args[1].args) == 1:
        v = fv()
        b = instantiate_elem(x, v)
        return any_(x.args[0], v, b) if nm == "any" else all_(x.args[0], v, b)
    return app("call", nm, (x,), ())


def mapterm(I, f, x, st):
    if x.op in ("list", "tuple"):
        return mk("list", *[I.deref(I.call(f, [e], {}, st), st) for e in x.args])
    from .pyint import iter_desc
    n, e, flt = iter_desc(x)
    k = fv()
    s = st.copy()
    r = I.deref(I.call(f, [e(k)], {}, s), s)
    r = mk("list", r)
    if flt is not None:
        r = ite(truth(flt(k)), r, mk("list"))
    return fm(n, k, r)


def starmapterm(I, f, x, st):
    from .pyint import iter_desc

    def ap(t, s):
        if t.op in ("tuple", "list"):
            return I.deref(I.call(f, list(t.args), {}, s), s)
        return I.deref(I.call(f, [mk("star", t)], {}, s), s)
    if x.op in ("list", "tuple"):
        return mk("list", *[ap(e, st) for e in x.args])
    n, e, flt = iter_desc(x)
    k = fv()
    s = st.copy()
    tr0 = s.trace
    s.trace = EMPTYSEQ
    r = mk("list", ap(e(k), s))
    if s.trace is not EMPTYSEQ:
        tr = I.deref(s.trace, s)
        st.trace = cat(st.trace, fm(n, k, tr)) if st.trace is not EMPTYSEQ else fm(n, k, tr)
    if flt is not None:
        r = ite(truth(flt(k)), r, mk("list"))
    return fm(n, k, r)


# ---------------------------------------------------------------- methods

NPM = {"sum": "numpy.sum", "max": "numpy.max", "min": "numpy.min", "mean": "numpy.mean", "any": "numpy.any", "all": "numpy.all",
       "argsort": "numpy.argsort", "dot": "matmul", "cumsum": "numpy.cumsum", "repeat": "numpy.repeat", "round": "numpy.round",
       "transpose": "numpy.transpose", "ravel": "numpy.ravel", "flatten": "numpy.ravel", "reshape": "numpy.reshape"}


def reshape(x, shape):
    if x.op == "ite":
        return ite(x.args[0], reshape(x.args[1], shape), reshape(x.args[2], shape))
    if shape.op == "list":
        shape = mk("tuple", *shape.args)
    if x.op == "call" and x.args[0] == "reshape":
        x = x.args[1][0]
    if len(shape.args) == 1 and x.op == "nparr" and is_num(shape.args[0]) and shape.args[0].args[0] == -1:
        f = flat(x.args[0])
        if f is not None:
            return nparr(f)
    return app("call", "reshape", (x, shape), ())


def _flat_elem(e):
    if e.op == "nparr":
        return _flat_elem(e.args[0])
    if e.op in ("list", "tuple"):
        ps = [_flat_elem(x) for x in e.args]
        return None if any(p is None for p in ps) else (cat(*ps) if ps else mk("list"))
    if e.op == "fm":
        return flat(e)
    if e.op in ("float", "int", "num", "poly"):
        return mk("list", e)
    return None


def flat(s):
    """row-major flattening of a nested literal sequence, or None"""
    if s.op in ("list", "tuple"):
        return _flat_elem(s)
    if s.op == "fm":
        body = s.args[1]
        v = fv()
        b = subst(body, {mk("bv", body.height + 1): v})
        r = flat(b)
        return None if r is None else fm(s.args[0], v, r)
    if s.op == "cat":
        ps = [flat(x) for x in s.args]
        return None if any(p is None for p in ps) else cat(*ps)
    return None


def call_method(I, base, name, args, kwargs, st):
    D = lambda x: I.deref(x, st)
    if base.op == "ite" and any(TT_loc(x) for x in (base.args[1], base.args[2])):
        c, a, b = base.args
        s1, s2 = st.copy(), st.copy()
        v1 = call_method(I, a, name, args, kwargs, s1)
        v2 = call_method(I, b, name, args, kwargs, s2)
        I.merge_into(st, c, s1, s2)
        return I.merge_val(st, c, v1, v2)
    if base.op == "super":
        return super_call(I, base, name, args, kwargs, st)
    if base.op == "dict" and name in ("get", "keys", "values", "items"):
        return heap_method(I, None, base, name, args, kwargs, st)
    if base.op == "loc":
        n = base.args[0]
        c = st.heap.get(n)
        if c is None:
            return unk("heap")
        r = heap_method(I, n, c, name, args, kwargs, st)
        if r is not None:
            return r
        if c.op == "obj":
            b = dict(c.args[1]).get("__base__")
            if b is not None:
                return call_method(I, b, name, args, kwargs, st)
            return I.opaque_meth(st, base, name, args, kwargs)
        base = I.deref(base, st)
    r = value_method(I, base, name, args, kwargs, st)
    return r


def TT_loc(x):
    from .pyint import _hasloc
    return _hasloc(x)


MUTATORS = {"append", "extend", "insert", "pop", "sort", "reverse", "remove", "clear", "update", "setdefault", "write", "writelines",
            "readline", "add", "fill", "discard", "popitem"}


def heap_method(I, n, c, name, args, kwargs, st):
    D = lambda x: I.deref(x, st)
    if c.op == "handle":
        p, m, content, pos = c.args
        if name == "write":
            st.heap[n] = mk("handle", p, m, cat(content, fmt(D(args[0]))), pos)
            return NONE
        if name == "writelines":
            x = D(I.iterable(args[0], st))
            if x.op in ("list", "tuple"):
                add_ = cat(*[fmt(e) for e in x.args]) if x.args else string("")
            else:
                from .pyint import iter_desc
                nn, e, f = iter_desc(x)
                k = fv()
                b = fmt(e(k))
                if f is not None:
                    b = ite(truth(f(k)), b, string(""))
                add_ = fm(nn, k, b)
            st.heap[n] = mk("handle", p, m, cat(content, add_), pos)
            return NONE
        if m.op == "str" and m.args[0].startswith("mem") and name in ("getvalue", "read", "readlines", "readline"):
            if name == "getvalue" or name == "read" and is_num(pos) and pos.args[0] == 0:
                return content
            return unk("stringio")
        if name == "readlines":
            if is_num(pos) and pos.args[0] == 0:
                return mk("lines", p)
            return subseq(mk("lines", p), pos, NONE)
        if name == "read":
            return mk("text", p)
        if name == "readline":
            r = index(mk("lines", p), pos)
            st.heap[n] = mk("handle", p, m, content, add(pos, num(1)))
            return r
        if name in ("close", "flush", "seek", "__exit__"):
            if name == "seek" and m.op == "str" and m.args[0].startswith("mem"):
                k = D(args[0]) if args else num(0)
                st.heap[n] = mk("handle", p, string("mem@%s" % (k.args[0] if is_num(k) else "?")), content, num(0))
                return NONE
            if name == "seek":
                st.heap[n] = mk("handle", p, m, content, D(args[0]) if args else num(0))
            if name == "close":
                I.event(st, mk("ev", "close", (p, m), ()))
            return NONE
        return unk("handle." + name)
    if c.op in ("list", "fm", "cat", "empty", "sym", "fv", "idx", "attr", "call", "set", "sortd", "ite", "sub", "lines", "meth", "keys", "values", "items"):
        if name == "append":
            st.heap[n] = cat(c, mk("list", args[0])) if c.op != "empty" else mk("list", args[0])
            return NONE
        if name == "extend":
            x = I.iterable(args[0], st)
            if x.op == "tuple":
                x = mk("list", *x.args)
            st.heap[n] = cat(c, x)
            return NONE
        if name == "insert" and len(args) == 2:
            i = D(args[0])
            if is_num(i) and i.args[0] == 0:
                st.heap[n] = cat(mk("list", args[1]), c)
            else:
                st.heap[n] = cat(subseq(c, num(0), i), mk("list", args[1]), subseq(c, i, NONE))
            return NONE
        if name == "pop":
            i = D(args[0]) if args else num(-1)
            v = index(c, i)
            if c.op == "list" and is_num(i):
                l = list(c.args)
                try:
                    l.pop(int(i.args[0]))
                except IndexError:
                    return unk("pop")
                st.heap[n] = mk("list", *l)
            elif is_num(i) and i.args[0] == 0:
                st.heap[n] = subseq(c, num(1), NONE)
            elif is_num(i) and i.args[0] == -1:
                st.heap[n] = mk("sub", c, num(0), num(-1))
            else:
                st.heap[n] = app("call", "popped", (D(c), i), ())
            return v
        if name == "sort":
            key = kwargs.get("key")
            rev = kwargs.get("reverse")
            st.heap[n] = sorted_(D(c), argterm(I, key, st) if key is not None else NONE, D(rev) if rev is not None else FALSE)
            return NONE
        if name == "reverse":
            st.heap[n] = app("call", "reversedlist", (D(c),), ())
            return NONE
        if name == "clear":
            st.heap[n] = mk("list")
            return NONE
        if name == "copy" and not args:
            return I.alloc(st, c)
        if name in ("remove", "add", "discard"):
            st.heap[n] = app("call", "list." + name, (D(c), D(args[0])), ())
            return NONE
    if c.op == "empty":
        st.heap[n] = c = mk("list")
    if c.op in ("dict", "dmap") or (c.op == "ite" and name in ("update", "keys", "items", "values", "get")):
        if name == "update":
            for a in args:
                d = I.clean(I.get(st, a))
                if d.op == "dict":
                    for k, v in d.args:
                        I.setitem(mk("loc", n), k, v, st)
                elif d.op == "dmap":
                    c = st.heap[n]
                    if c.op == "dict":
                        c = mk("dmap", c, EMPTYSEQ)
                    for k, v in (d.args[0].args if d.args[0].op == "dict" else ()):
                        c = mk("dmap", c.args[0], cat(c.args[1], mk("list", mk("tuple", k, v))))
                    st.heap[n] = mk("dmap", c.args[0], cat(c.args[1], d.args[1]))
                else:
                    st.heap[n] = mk("dmap", c, mk("list", mk("tuple", mk("all"), D(d)))) if c.op == "dict" else unk("update")
            for k, v in kwargs.items():
                I.setitem(mk("loc", n), string(k), v, st)
            return NONE
        if c.op == "ite":
            return None
        if name == "keys":
            if c.op == "dict":
                return mk("list", *[k for k, _ in c.args])
            return mk("keys", I.clean(D(c)))
        if name == "values":
            if c.op == "dict":
                return mk("list", *[v for _, v in c.args])
            return mk("values", I.clean(D(c)))
        if name == "items":
            if c.op == "dict":
                return mk("list", *[mk("tuple", k, v) for k, v in c.args])
            return mk("items", I.clean(D(c)))
        if name == "get":
            k = D(args[0])
            if c.op == "dict" and k.op in CONSTS:
                for kk, v in c.args:
                    if kk is k:
                        return v
                if all(kk.op in CONSTS for kk, _ in c.args):
                    return args[1] if len(args) > 1 else NONE
            return app("call", "dict.get", (D(c), k, D(args[1]) if len(args) > 1 else NONE), ())
        if name == "pop" and args and c.op in ("dict", "dmap"):
            k = D(args[0])
            if c.op == "dict" and k.op in CONSTS and all(kk.op in CONSTS for kk, _ in c.args):
                for kk, v in c.args:
                    if kk is k:
                        st.heap[n] = mk("dict", *[e for e in c.args if e[0] is not k])
                        return v
                return args[1] if len(args) > 1 else mk("keyerror", k)
            whole = I.clean(D(c))
            st.heap[n] = mk("dmap", app("call", "dict.without", (whole, k), ()), EMPTYSEQ)
            return index(whole, k) if len(args) == 1 else app("call", "dict.get", (whole, k, D(args[1])), ())
        if name == "copy":
            return I.alloc(st, c)
        if name == "setdefault":
            k = D(args[0])
            if c.op == "dict":
                for kk, v in c.args:
                    if kk is k:
                        return v
            I.setitem(mk("loc", n), k, args[1] if len(args) > 1 else NONE, st)
            return args[1] if len(args) > 1 else NONE
    if c.op == "arr":
        if name == "fill":
            st.heap[n] = mk("arr", app("call", "filled", (c.args[0], D(args[0])), ()), EMPTYSEQ)
            return NONE
        if name == "copy":
            return I.alloc(st, c)
        if name == "sort":
            st.heap[n] = mk("arr", mk("sortd", D(c), NONE, FALSE), EMPTYSEQ)
            return NONE
    return None


def textof(b):
    """a sequence of strings joined with nothing in between"""
    if b.op == "list":
        return cat(string(""), *[fmt(e) if e.op in ("num", "poly", "float", "int") else e for e in b.args]) if b.args else string("")
    if b.op == "empty":
        return string("")
    if b.op == "ite":
        x, y = textof(b.args[1]), textof(b.args[2])
        return None if x is None or y is None else ite(b.args[0], x, y)
    if b.op == "cat":
        xs = [textof(e) for e in b.args]
        return None if None in xs else cat(*xs)
    if b.op == "fm":
        v = fv()
        t = textof(subst(b.args[1], {mk("bv", b.args[1].height + 1): v}))
        return None if t is None else fm(b.args[0], v, t)
    return None


CONTAINER = ("list", "empty", "dict", "fm", "dmap", "cat", "arr", "set")


def nested(c):
    """does the cell hold containers by value, so that a change made through one of them would not reach it?"""
    if c.op == "list":
        return any(container(e) for e in c.args)
    if c.op in ("cat", "ite"):
        return any(nested(e) for e in c.args if isinstance(e, T))
    if c.op == "fm":
        return nested(c.args[1])
    if c.op == "dmap":
        return any(e.op == "tuple" and len(e.args) == 2 and container(e.args[1]) for e in subterms(c.args[1]))
    if c.op == "dict":
        return any(container(v) for _, v in c.args)
    return False


def container(e):
    return e.op in CONTAINER or e.op == "ite" and all(container(x) for x in e.args[1:])


def lost(I, st, x):
    """something held inside a container was changed through a value: what holds it is no longer known"""
    r = x
    while r.op == "idx":
        r = r.args[0]
    if not container(x) and not (r is not x and (container(r) or r.op == "fv")):
        return
    seen = I.__dict__.setdefault("lostcells", set())
    held = set(y.args[0] for c in st.heap.values() if c.op in ("list", "cat", "fm", "dict", "dmap", "ite") for y in subterms(c) if y.op == "loc")
    for n, c in list(st.heap.items()):
        if nested(c) or n in seen and c.op == "fv" or n in held and container(c):
            seen.add(n)
            st.heap[n] = unk("an element changed through another name")


def value_method(I, x, name, args, kwargs, st):
    D = lambda y: I.deref(y, st)
    if name in ("append", "extend", "insert", "pop", "sort", "reverse", "remove", "clear", "update", "setdefault", "add"):
        lost(I, st, x)
    if x.op == "ite" and leaves(x) <= 16 and name not in MUTATORS:
        c, a, b = x.args
        return ite(c, D(value_method(I, a, name, args, kwargs, st)), D(value_method(I, b, name, args, kwargs, st)))
    if name == "format" and x.op == "str":
        return str_format(x.args[0], [D(a) for a in args], {k: D(v) for k, v in kwargs.items()})
    if name == "join" and x.op in ("str", "cat", "fmt", "sym"):
        y = D(I.iterable(args[0], st))
        if y.op in ("list", "tuple"):
            out = []
            for i, e in enumerate(y.args):
                if i:
                    out.append(x)
                out.append(fmt(e))
            return cat(*out) if out else string("")
        if x.op == "str" and x.args[0] == "" and y.op == "fm":
            body = y.args[1]
            h = body.height + 1
            v = fv()
            b = subst(body, {mk("bv", h): v})
            t = textof(b)
            if t is not None:
                return fm(y.args[0], v, t)
        return mk("join", x, y)
    if name in ("keys", "values", "items") and not args and x.op not in ("str",):
        return mk(name, x)
    if x.op == "str" and name in ("upper", "lower", "strip", "lstrip", "rstrip", "title", "capitalize") and all(D(a).op == "str" for a in args):
        return string(getattr(x.args[0], name)(*[D(a).args[0] for a in args]))
    if x.op == "str" and name in ("startswith", "endswith") and args and D(args[0]).op == "str":
        return TRUE if getattr(x.args[0], name)(D(args[0]).args[0]) else FALSE
    if x.op == "str" and name == "split" and all(D(a).op == "str" for a in args):
        return mk("list", *[string(p) for p in x.args[0].split(*[D(a).args[0] for a in args])])
    if name == "zfill" and args and D(args[0]).op == "num":
        return fmt(x if x.op != "fmt" or x.args[1] != "" else x.args[0], "0>%d" % int(D(args[0]).args[0]))
    if x.op == "sortd" and x.args[0].op == "range" and name == "index" and len(args) == 1 and D(args[0]).op == "idx" and D(args[0]).args[0] is x:
        return D(args[0]).args[1]   # a sorted range is a permutation, so the position of its i-th entry is i
    if x.op in ("list", "tuple", "fm", "cat", "sortd") and name == "index":
        return app("meth", x, "index", tuple(D(a) for a in args), ())
    if x.op == "call" and x.args[0] == "multiprocessing.Pool":
        if name in ("map", "imap"):
            return mapterm(I, args[0], D(I.iterable(args[1], st)), st)
        if name == "starmap":
            return starmapterm(I, args[0], D(I.iterable(args[1], st)), st)
        if name in ("close", "join", "terminate"):
            return NONE
    if name in ("strip",) and x.op in ("float", "int"):
        return x
    if name == "copy" and not args:
        if x.op not in ("sym",):
            return I.alloc(st, mk("arr", x, EMPTYSEQ))
    if name in ("reshape",):
        a = [D(y) for y in args]
        sh = a[0] if len(a) == 1 and a[0].op in ("tuple", "list") else mk("tuple", *a)
        return reshape(x, sh)
    if name in ("ravel", "flatten") and not args:
        return reshape(x, mk("tuple", num(-1)))
    if name == "tolist" and not args:
        return app("call", "tolist", (x,), ())
    if name == "transpose" and not args and not kwargs:
        return app("call", "transpose", (x,), ())
    if name == "dot" and len(args) == 1:
        return app("call", "matmul", (x, D(args[0])), ())
    if name in ("sum", "max", "min", "mean", "any", "all", "argsort", "cumsum", "repeat") and x.op not in ("str",) and not I.clsof(st, x):
        return uncall(I, "numpy." + name, [x] + list(args), kwargs, st)
    if name == "astype" and args:
        return app("call", "astype", (x, D(args[0])), ())
    if name == "append" and x.op in ("sym", "attr", "idx", "fv", "call"):
        I.event(st, mk("ev", "mutate.append", (x, D(args[0])), ()))
        return NONE
    if name in MUTATORS and x.op not in ("str",) and name not in ("pop", "update", "insert", "add", "fill", "remove") or name in ("to_csv", "to_hdf", "savefig", "to_excel", "to_pickle", "to_json"):
        r = I.opaque_meth(st, x, name, args, kwargs)
        I.event(st, mk("ev", "mutate." + name, (r,), ()))
        return r
    if args and x.op not in ("str", "fmt", "cat"):
        ps = I.prog.params_of(name)
        if ps is not None and len(ps) >= len(args) and not any(a.op == "star" for a in args):
            kwargs = dict(kwargs)
            kwargs.update(zip(ps, args))
            args = []
    args2 = tuple(argterm(I, a, st) for a in args)
    kw2 = tuple(sorted((k, argterm(I, v, st)) for k, v in kwargs.items()))
    if name in ("eval", "train", "load_state_dict", "remove_sites", "insert", "remove", "update", "to", "make_supercell", "add_site_property", "perturb", "translate_sites", "add", "pop", "fill", "create_dataset"):
        I.event(st, mk("ev", "mutate." + name, (x,) + args2, kw2))
    return app("meth", x, name, args2, kw2)


def value_attr(I, o, name, st):
    """attribute read on a value with no class information"""
    if o.op == "ite" and leaves(o) <= 16:
        c, a, b = o.args
        return ite(c, value_attr(I, a, name, st), value_attr(I, b, name, st))
    x = I.deref(o, st)
    if x.op == "obj":
        f = dict(x.args[1])
        if name in f:
            return f[name]
        if "__base__" in f:
            x = f["__base__"]
    if name == "T":
        return app("call", "transpose", (x,), ())
    if name == "size" and False:
        return None
    if x.op == "super":
        return mk("supermeth", x.args[1], name)
    return app("attr", x, name)


def enter(I, v, st):
    return v


def super_attr(I, o, name, st):
    return mk("vmeth", o, name)


def super_call(I, o, name, args, kwargs, st):
    q, selft = o.args
    if q is not None:
        mro = I.mro(I.clsof(st, selft) or q) if selft is not None else I.mro(q)
        seen = False
        order = I.mro(q)
        for e in order[1:]:
            if e[0] == "repo":
                for s in e[3].body:
                    if isinstance(s, ast.FunctionDef) and s.name == name:
                        return I.call_function(e[2], e[1].split(":")[1], s, args, kwargs, st, selfterm=selft, stack=st.fn.stack)
        if name == "__init__":
            I.event(st, mk("ev", "super.__init__", tuple(I.deref(a, st) for a in args), tuple(sorted((k, I.deref(v, st)) for k, v in kwargs.items()))))
            return NONE
    a = tuple([I.deref(selft, st)] + [argterm(I, x, st) for x in args])
    kw = tuple(sorted((k, argterm(I, v, st)) for k, v in kwargs.items()))
    I.event(st, mk("ev", "super." + name, a, kw))
    return app("call", "super." + name, a, kw)
