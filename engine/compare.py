"""Three-valued comparison of value-graph terms.

equal      same normal form: the two programs compute the same value on every input
differ     a rigid mismatch: constants, column/row offsets, field names, operators,
           guards or formulas that cannot denote the same value on every input
undecided  the shapes differ in a way the equational theory cannot settle; never
           reported as a violation, only recorded in the evidence
"""
from .terms import *
from . import terms as TT

DEF, UNK = "differ", "undecided"


class D(object):
    __slots__ = ("kind", "a", "b", "why", "was", "frozen")

    def __init__(self, kind, a, b, why, was=None, frozen=False):
        self.kind, self.a, self.b, self.why = kind, a, b, why
        self.was = was or kind          # before it was weakened by its surroundings
        self.frozen = frozen            # never strengthened


def weaken(ds, frozen=False):
    """the mismatches cannot be judged on their own"""
    return [D(UNK, d.a, d.b, d.why, d.was, d.frozen or frozen) for d in ds]


# calls within one family denote pairwise different functions
FAMILIES = [
    {"numpy.zeros", "numpy.ones", "numpy.empty", "numpy.full"}, {"numpy.zeros_like", "numpy.ones_like"},
    {"numpy.max", "numpy.min", "numpy.mean", "numpy.sum", "numpy.prod", "numpy.median", "numpy.std", "numpy.argmax", "numpy.argmin", "numpy.any", "numpy.all", "numpy.count_nonzero", "numpy.cumsum", "numpy.var"},
    {"max", "min", "sumof"},
    {"numpy.sin", "numpy.cos", "numpy.tan", "numpy.exp", "numpy.log", "numpy.arccos", "numpy.arcsin", "numpy.log10", "numpy.sinh", "numpy.cosh", "numpy.tanh"},
    {"numpy.maximum", "numpy.minimum"}, {"numpy.hstack", "numpy.vstack"},
    {"upper", "lower", "title", "capitalize"}, {"startswith", "endswith"}, {"lstrip", "rstrip"},
    {"numpy.greater", "numpy.less", "numpy.greater_equal", "numpy.less_equal"},
    {"argmin", "argmax"}, {"BitOr", "BitAnd", "BitXor"}, {"max", "min", "mean", "sum", "prod", "std", "median"},
]
COMMUTE = ("numpy.maximum", "numpy.minimum", "numpy.add", "numpy.multiply", "numpy.logical_and", "numpy.logical_or", "BitAnd", "BitOr", "BitXor", "numpy.allclose", "numpy.isclose", "numpy.array_equal", "numpy.lcm", "math.gcd", "numpy.gcd", "numpy.inner", "numpy.vdot", "numpy.hypot", "set.union", "intersection", "union")
PROJ = ("idx", "abs", "int", "round", "floor", "ceil")
SOFT = ("floordiv", "mod", "int", "brk", "fold", "mfold", "max", "min", "round", "ext2", "maxo", "mino", "sum", "len", "floor", "ceil", "abs", "any", "all", "prod")
BIND1 = ("fm", "sum", "brk", "any", "all", "prod", "maxo", "mino")
UNIV = ("unk", "undef", "bottom", "missingarg", "attrerror", "keyerror", "indexerror", "caught", "nameerror")


FAILS = ("attrerror", "keyerror", "missingarg", "indexerror", "nameerror")
LOOSE = ("ite", "list", "tuple", "dict", "obj", "ev", "new", "fm", "cat")


def loosen(t):
    """forget which sub-expression may raise inside a try body, keep which handler; several
    try bodies in one term are told apart by the literals they look for"""
    rs = [x for x in subterms(t) if x.op == "raises"]
    if not rs:
        return t
    memo = {}

    def go(x):
        if x.op == "raises":
            names = x.args[0]
            if "*" in names or "Exception" in names or "BaseException" in names:
                names = ("*",)
            words = ()
            if len(rs) > 1:
                words = tuple(sorted(set(y.args[0] for z in x.args[1] if isinstance(z, T) for y in subterms(z) if y.op == "str" and len(y.args[0]) > 3)))
            return mk("raises", tuple(sorted(names)), words)
        if x.op in ("num", "str", "bool", "none", "bv", "ref") or not any(c.op == "raises" for c in x.conds):
            return x
        r = memo.get(x.dg)
        if r is None:
            r = memo[x.dg] = rebuild(x, go)
        return r
    return go(t)


def diff(a, b, depth=0, seen=None):
    """list of D; empty = equal"""
    seen = {} if seen is None else seen
    if a.op == "arr" and a.args[0].op != "carray" and TT._blank(a.args[1]):
        a = a.args[0]
    if b.op == "arr" and b.args[0].op != "carray" and TT._blank(b.args[1]):
        b = b.args[0]
    key = (a.dg, b.dg)
    if a is b:
        return []
    if key in seen:
        return seen[key]
    if depth > 200:
        return [D(UNK, a, b, "depth")]
    seen[key] = []
    r = _diff(a, b, depth, seen)
    if a.op not in LOOSE and b.op not in LOOSE and definite(r) and len(definite(r)) < len(r):
        # a part that cannot be settled may compensate for the part that differs
        r = [x for x in r if x.why == "one side fails here"] or weaken(r)
    seen[key] = r
    return r


def has_unk_top(a, b):
    return a.op in UNIV or b.op in UNIV


def definite(ds):
    return [d for d in ds if d.kind == DEF]


LENS = {}


def skeleton(t):
    if isinstance(t, T):
        return "?" if t.op in ("fv", "bv") else (t.op,) + tuple(skeleton(x) for x in t.args)
    return tuple(skeleton(x) for x in t) if isinstance(t, tuple) else t


def note_lengths(ts):
    """lengths of sequences that the two sides test for"""
    LENS.clear()
    for t in ts:
        for x in subterms(t):
            if x.op == "eq" and {y.op for y in x.args} == {"len", "num"}:
                l, n = x.args if x.args[0].op == "len" else x.args[::-1]
                LENS.setdefault(skeleton(l.args[0]), set()).add(n.args[0])


def _stored(x):
    """an element of an array that has been stored to: any value, constants included"""
    while x.op == "idx":
        x = x.args[0]
    return x.op in ("arr", "carray", "dmap")


def _u(a, b, why):
    return [D(UNK, a, b, why)]


def _d(a, b, why):
    return [D(DEF, a, b, why)]


CONST = ("num", "str", "bool", "none", "fnum")


def _diff(a, b, depth, seen):
    go = lambda x, y: diff(x, y, depth + 1, seen)
    if a.op in UNIV or b.op in UNIV:
        if a.op != b.op:
            o, f = (b, a) if a.op in UNIV else (a, b)
            if o.op not in UNIV and f.op in FAILS:
                return _d(a, b, "one side fails here")
            if o.op not in UNIV and f is a and f.op == "undef" and not any(x.op in ("undef", "unk") for x in subterms(o)):
                return _d(a, b, "variable not assigned here")
        return _u(a, b, "unknown value")
    if a.op == "ite" or b.op == "ite":
        return ite_diff(a, b, depth, seen)
    if {a.op, b.op} & {"uninit", "freed"} and a.op != b.op:
        return _d(a, b, "memory that was never written" if "uninit" in (a.op, b.op) else "memory that was released")
    if a.op in CONST and b.op in CONST:
        if {a.op, b.op} == {"num", "bool"}:
            return _u(a, b, "bool/num") if a.args[0] == int(b.args[0]) or b.args[0] == int(a.args[0]) else _d(a, b, "constants differ")
        return _d(a, b, "constants differ")
    if a.op in CONDOPS or b.op in CONDOPS:
        return cond_diff(a, b, depth, seen)
    for x, y in ((a, b), (b, a)):
        if x.op == "call" and x.args[0] in ("numpy.round", "numpy.abs", "numpy.floor", "numpy.ceil", "numpy.sqrt", "numpy.exp", "numpy.sin", "numpy.cos", "numpy.unique", "numpy.cumsum", "numpy.diff", "transpose", "numpy.repeat", "numpy.tile") and x.args[1] and x.args[1][0] is y:
            return _d(a, b, "extra/missing %s" % x.args[0])
    arith = ("poly", "num")
    if a.op in arith or b.op in arith:
        if a.op in ("list", "tuple", "str", "none", "fm", "dict", "nparr", "cat") or b.op in ("list", "tuple", "str", "none", "fm", "dict", "nparr", "cat"):
            x = a if a.op not in arith else b
            if x.op in ("str", "none", "dict"):
                return _d(a, b, "kinds differ")
            return _u(a, b, "kinds")
        return poly_diff(a, b, depth, seen)
    if a.op == b.op:
        return same_op(a, b, depth, seen)
    for x, y in ((a, b), (b, a)):
        if x.op == "fmt" and x.args[1] == "" and y.op in TT.TEXTATOM:
            r = diff(x.args[0], y, depth + 1, seen)
            return r if definite(r) else _u(a, b, "text form")
    for x, y in ((a, b), (b, a)):
        if x.op in ("arr", "dmap") and x.args[0] is y:
            return _d(a, b, "stores present on one side only")
        if x.op == "call" and x.args[0] == "reshape" and y.op == "nparr" and not diff(x.args[1][0], y, depth + 1, seen):
            return _d(a, b, "shape differs")
        if x.op == "fold" and (y.op in CONST or y.op in ("list", "empty", "dict") and not y.args):
            return _d(a, b, "accumulation versus constant")
        if x.op == "fold" and x.args[1] is y:
            return _d(a, b, "updates of a loop present on one side only")
    for x, y in ((a, b), (b, a)):
        if y.op == "obj" and len(y.args[1]) > 1 and dict(y.args[1]).get("__base__") is x:
            return _d(a, b, "attributes set on one side only")
        if y.op == "cat" and any(z is x for z in y.args) and any(z.op in ("str", "list") and z.args and z.args[0] != "" for z in y.args):
            return _d(a, b, "one side has extra %s" % brief([z for z in y.args if z is not x]))
    # projections: one side applies one more selection
    for x, y in ((a, b), (b, a)):
        if x.op in PROJ and x.args[0] is y:
            return _d(a, b, "extra/missing %s" % x.op)
    if a.op == "none" or b.op == "none":
        o = b if a.op == "none" else a
        if o.op in ("list", "dict", "str", "fm", "nparr", "obj", "new", "tuple", "float", "int", "cat"):
            return _d(a, b, "None versus a value")
        if a.op == "none" and b.op in ("meth", "call", "arr", "poly", "dmap", "sub", "set"):
            return _d(a, b, "None versus a value")
        return _u(a, b, "None")
    if {a.op, b.op} <= {"cat", "list", "str", "fmt", "fm", "empty"}:
        return cat_diff(a, b, depth, seen)
    if {a.op, b.op} <= {"float", "int", "round", "floor", "ceil", "abs"}:
        if a.args[0] is b.args[0]:
            return _d(a, b, "conversion differs")
        return _u(a, b, "conversion")
    if {a.op, b.op} == {"max", "min"}:
        return _d(a, b, "max versus min")
    if {a.op, b.op} == {"maxo", "mino"}:
        return _d(a, b, "max versus min")
    for x, y in ((a, b), (b, a)):
        if x.op == "ref" and y.op in ("call", "meth", "attr", "sym", "idx", "str", "fm", "brk", "cat", "key", "num", "poly", "nparr", "list", "dict", "float", "int") and x.args[0] in ("class", "builtin", "mod", "module"):
            return _d(a, b, "%s used as data" % (x.args[1:],))
    if {a.op, b.op} == {"attr", "sym"} or {a.op, b.op} == {"sym", "idx"} or {a.op, b.op} == {"attr", "idx"}:
        return _u(a, b, "selection")
    if a.op in CONST or b.op in CONST:
        o = b if a.op in CONST else a
        if o.op in ("sym", "attr", "idx", "float", "int", "fmt") and not has_unk(o) and not _stored(o) and any(x.op == "sym" for x in subterms(o)):
            return _d(a, b, "constant versus data")
    return _u(a, b, "%s versus %s" % (a.op, b.op))


def worst(*dss):
    out = []
    for d in dss:
        out += d
    return out


def tup_diff(xs, ys, a, b, depth, seen):
    out = []
    for x, y in zip(xs, ys):
        if isinstance(x, T) and isinstance(y, T):
            out += diff(x, y, depth + 1, seen)
        elif isinstance(x, tuple) and isinstance(y, tuple):
            if len(x) != len(y):
                out += _u(a, b, "arity")
            else:
                out += tup_diff(x, y, a, b, depth, seen)
        elif x != y:
            out += _d(a, b, "%r versus %r" % (x, y))
    return out


def apart(a, b):
    """two extrema of polynomials in independent inputs: a separating point exists (None: outside this fragment)"""
    ats = []
    for e in a.args + b.args:
        for m in TT.to_poly(e):
            for z, k in m:
                if z not in ats:
                    ats.append(z)

    def free(z):
        while z.op == "idx" and z.args[1].op == "num":
            z = z.args[0]
        return z.op == "sym"
    if not ats or not all(free(z) for z in ats):
        return None
    ats.sort(key=lambda z: z.dg)
    import itertools
    import random
    vals = [(1, 2) if z.op == "sym" and z.args[1] in ("+", "#") else (-1, 0, 1) for z in ats]
    size = 1
    for v in vals:
        size *= len(v)
    if size <= 2187:
        pts = itertools.product(*vals)
    else:
        g = random.Random(0)
        pts = [tuple(g.choice(v) for v in vals) for _ in range(600)]
    ps = [[TT.to_poly(e) for e in t.args] for t in (a, b)]
    if any(k < 0 or k.denominator != 1 for q in ps for p in q for m in p for _, k in m):
        return None
    f = max if a.op == "max" else min
    for pt in pts:
        at = dict(zip(ats, pt))
        x, y = [f(sum(c * prod_(at[z] ** int(k) for z, k in m) for m, c in p.items()) for p in q) for q in ps]
        if x != y:
            return True
    return False


def prod_(xs):
    r = 1
    for x in xs:
        r *= x
    return r


def same_op(a, b, depth, seen):
    go = lambda x, y: diff(x, y, depth + 1, seen)
    op = a.op
    if op in ("sym", "fv", "bv"):
        return _d(a, b, "different inputs")
    if op in ("list", "tuple"):
        if len(a.args) != len(b.args):
            return _d(a, b, "%d versus %d elements" % (len(a.args), len(b.args)))
        return tup_diff(a.args, b.args, a, b, depth, seen)
    if op == "dict":
        ka, kb = [k for k, _ in a.args], [k for k, _ in b.args]
        if ka != kb:
            if set(ka) == set(kb):
                da, db = dict(a.args), dict(b.args)
                r = []
                for k in ka:
                    r += go(da[k], db[k])
                return r or _u(a, b, "key order")
            if all(k.op in CONST for k in ka + kb):
                return _d(a, b, "keys differ")
            return _u(a, b, "keys")
        return worst(*[go(x, y) for (_, x), (_, y) in zip(a.args, b.args)])
    if op == "obj":
        fa, fb = dict(a.args[1]), dict(b.args[1])
        r = []
        for k in fa:
            if k in fb:
                r += go(fa[k], fb[k])
        return r
    if op == "attr":
        if a.args[1] != b.args[1]:
            r = go(a.args[0], b.args[0])
            if not r:
                return _d(a, b, "field %s versus %s" % (a.args[1], b.args[1]))
            return _u(a, b, "field") if not definite(r) else r
        return go(a.args[0], b.args[0])
    if op in ("call", "meth"):
        na, nb = (a.args[0], b.args[0]) if op == "call" else (a.args[1], b.args[1])
        if na != nb and not (isinstance(na, T) or isinstance(nb, T)):
            for f in FAMILIES:
                if na in f and nb in f:
                    return _d(a, b, "%s versus %s" % (na, nb))
            return _u(a, b, "%s versus %s" % (na, nb))
        if isinstance(na, T) and isinstance(nb, T) and na is not nb:
            return _u(a, b, "callee")
        r = []
        if op == "meth":
            r += go(a.args[0], b.args[0])
        pa, pb, kwa, kwb = (a.args[1], b.args[1], a.args[2], b.args[2]) if op == "call" else (a.args[2], b.args[2], a.args[3], b.args[3])
        if any(x.op == "star" for x in pa + pb):
            if len(pa) != len(pb) or any(x.op == "star" and y.op != "star" for x, y in list(zip(pa, pb)) + list(zip(pb, pa))):
                return _u(a, b, "unpacked arguments")
        if len(pa) != len(pb):
            r += _u(a, b, "arity") if definite(r) == [] and len(set(k for k, _ in kwa) ^ set(k for k, _ in kwb)) else _d(a, b, "%d versus %d arguments of %s" % (len(pa), len(pb), na))
        elif len(pa) == 2 and pa[0] is pb[1] and pa[1] is pb[0] and na not in COMMUTE:
            r += _d(a, b, "arguments of %s exchanged" % na)
        else:
            r += tup_diff(pa, pb, a, b, depth, seen)
        da, db = dict(kwa), dict(kwb)
        if set(da) != set(db):
            r += _d(a, b, "keywords of %s differ: %s" % (na, sorted(set(da) ^ set(db))))
        for k in da:
            if k in db:
                r += go(da[k], db[k])
        return r
    if op == "idx":
        r1, r2 = go(a.args[0], b.args[0]), go(a.args[1], b.args[1])
        x, y = a.args[0], b.args[0]
        i, j = a.args[1], b.args[1]
        if i.op == j.op == "num" and not definite(r1) and (i.args[0] < 0) != (j.args[0] < 0):
            # counted from the end on one side only: the same element where the length says so
            ns = LENS.get(skeleton(x), set()) | LENS.get(skeleton(y), set())
            if not ns or abs(i.args[0] - j.args[0]) in ns:
                return r1 + _u(a, b, "counted from the other end")
        if x.op == "arr" and y.op == "arr" and x.args[0] is y.args[0] and definite(r1) and x.args[1] is not y.args[1] and any("stores present on one side" in str(d.why if hasattr(d, "why") else d) for d in r1):
            r1 = _u(a, b, "an element of an array after further stores")
        return r1 + r2
    if op == "sub":
        r = go(a.args[0], b.args[0])
        for i in (1, 2):
            x, y = a.args[i], b.args[i]
            if x is y:
                continue
            if NONE in (x, y):
                o = y if x is NONE else x
                if any(z.op == "len" for z in subterms(o)):
                    r += _u(a, b, "slice end")
                else:
                    r += _d(a, b, "slice bound present on one side only")
            else:
                r += go(x, y)
        return r
    if op == "slice":
        r = []
        for x, y in zip(a.args, b.args):
            if x is y:
                continue
            if NONE in (x, y):
                o = y if x is NONE else x
                r += _d(a, b, "slice bound") if o.op == "num" else _u(a, b, "slice bound")
            else:
                r += go(x, y)
        return r
    if op in BIND1:
        v = fv("w")
        h1, h2 = a.args[1].height + 1, b.args[1].height + 1
        x, y = subst(a.args[1], {mk("bv", h1): v}), subst(b.args[1], {mk("bv", h2): v})
        if op == "fm" and x is not y:
            d = sub(a.args[0], b.args[0])
            if is_num(d) and not any(v in c.syms and not any(z.op in ("call", "idx", "meth", "attr") for z in subterms(c)) for c in x.conds):
                for k in (d, sub(num(0), d), num(1), num(-1)):
                    if k is not num(0) and subst(y, {v: add(v, k)}) is x:
                        return _d(a, b, "sequence starts %s elements later" % show(k))
        rn = go(a.args[0], b.args[0])
        rb = go(x, y)
        if op == "sum" and definite(rn) == [] and rn:
            return _u(a, b, "summation range") if not definite(rb) else weaken(rb, True)
        if rn and not definite(rn):
            # different iteration spaces: bodies are not comparable point by point
            return rn + weaken(rb)
        return rn + rb
    if op == "lam":
        if a.args[0] != b.args[0]:
            return _u(a, b, "arity")
        vs = [fv("l") for _ in range(a.args[0])]
        h1, h2 = a.args[1].height + 1, b.args[1].height + 1
        return go(subst(a.args[1], {mk("bv", h1, i): v for i, v in enumerate(vs)}),
                  subst(b.args[1], {mk("bv", h2, i): v for i, v in enumerate(vs)}))
    if op == "fold":
        v, c = fv("w"), fv("c")
        h1, h2 = a.args[2].height + 1, b.args[2].height + 1
        x = subst(a.args[2], {mk("bv", h1): v, mk("bv", h1, "c"): c})
        y = subst(b.args[2], {mk("bv", h2): v, mk("bv", h2, "c"): c})
        return go(a.args[0], b.args[0]) + go(a.args[1], b.args[1]) + go(x, y)
    if op == "mfold":
        n1, i1, b1, j1 = a.args
        n2, i2, b2, j2 = b.args
        if len(i1) != len(i2) or j1 != j2:
            return _u(a, b, "loop state")
        v = fv("w")
        cs = [fv("c") for _ in i1]
        h1, h2 = max(x.height for x in b1) + 1, max(x.height for x in b2) + 1
        m1 = {mk("bv", h1): v}
        m2 = {mk("bv", h2): v}
        for j, c in enumerate(cs):
            m1[mk("bv", h1, j)] = c
            m2[mk("bv", h2, j)] = c
        r = go(n1, n2)
        for x, y in zip(i1, i2):
            r += go(x, y)
        for x, y in zip(b1, b2):
            r += go(subst(x, m1), subst(y, m2))
        return r
    if op in ("cat", "join", "fm"):
        if op == "join":
            return go(a.args[0], b.args[0]) + go(a.args[1], b.args[1])
        return cat_diff(a, b, depth, seen)
    if op in ("max", "min", "set") and len(a.args) == len(b.args) and op != "set":
        xs = [x for x in a.args if x not in b.args]
        ys = [y for y in b.args if y not in a.args]
        if len(xs) == 1 and len(ys) == 1:
            r = go(xs[0], ys[0])
            if not r or not definite(r) or apart(a, b):
                return r
            return weaken(r) if apart(a, b) is None else r
        return _d(a, b, "different candidates of a %s" % op) if apart(a, b) else _u(a, b, op)
    if op in ("max", "min"):
        return _d(a, b, "different candidates of a %s" % op) if apart(a, b) else _u(a, b, op)
    if op == "fmt":
        r = go(a.args[0], b.args[0])
        if a.args[1] is not b.args[1] and a.args[1] != b.args[1]:
            r = r + _d(a, b, "format %s versus %s" % (a.args[1], b.args[1]))
        return r
    if op == "ref":
        if a.args[0] == b.args[0] == "class":
            return _d(a, b, "different classes")
        return _u(a, b, "reference")
    if op == "new":
        if a.args[0] != b.args[0]:
            return _d(a, b, "different classes")
        da, db = dict(a.args[2]), dict(b.args[2])
        if len(a.args[1]) != len(b.args[1]):
            return _u(a, b, "arity")
        r = tup_diff(a.args[1], b.args[1], a, b, depth, seen)
        if set(da) != set(db):
            r += _d(a, b, "argument %s given on one side only" % sorted(set(da) ^ set(db)))
        for k in da:
            if k in db:
                r += go(da[k], db[k])
        return r
    if op in ("ev", "evc", "store"):
        if a.args[0] != b.args[0]:
            return _d(a, b, "%s versus %s" % (a.args[0], b.args[0]))
        if op == "ev" and a.args[0] == "setattr":
            if a.args[2] != b.args[2]:
                return _d(a, b, "attribute %s versus %s" % (a.args[2], b.args[2]))
        return tup_diff(a.args[1:], b.args[1:], a, b, depth, seen)
    if op in ("arr", "dmap"):
        r = go(a.args[0], b.args[0])
        x, y = a.args[1], b.args[1]
        if x.op != y.op or (x.op in ("list", "cat") and len(x.args) != len(y.args)):
            return r + store_diff(a, b, x, y, depth, seen)
        return r + go(x, y)
    if op == "handle":
        return go(a.args[0], b.args[0]) + go(a.args[2], b.args[2]) + (_d(a, b, "read from another position") if a.args[1] is not b.args[1] and a.args[1].op == b.args[1].op == "str" and a.args[1].args[0][:3] == b.args[1].args[0][:3] == "mem" and "?" not in a.args[1].args[0] else [])
    if op == "sortd":
        r = go(a.args[0], b.args[0])
        for i in (1, 2):
            if a.args[i] is not b.args[i]:
                if a.args[i].op in ("none", "bool") or b.args[i].op in ("none", "bool"):
                    r += _d(a, b, "sort key/direction")
                else:
                    r += go(a.args[i], b.args[i])
        return r
    if len(a.args) == len(b.args):
        return tup_diff(a.args, b.args, a, b, depth, seen)
    return _u(a, b, "arity of " + op)


def store_diff(a, b, x, y, depth, seen):
    """stores into an array: different number of store groups"""
    for p, q in ((x, y), (y, x)):
        if p.op == "fold" and p.args[1] is q:
            return _d(a, b, "updates of a loop present on one side only")
    pa, pb = explode(x), explode(y)
    i = 0
    while i < len(pa) and i < len(pb) and pa[i] is pb[i]:
        i += 1
    j = 0
    while j < len(pa) - i and j < len(pb) - i and pa[-1 - j] is pb[-1 - j]:
        j += 1
    ra, rb = pa[i:len(pa) - j], pb[i:len(pb) - j]
    if not ra or not rb:
        return _d(a, b, "stores present on one side only")
    return _u(a, b, "store groups")


def piece_conds(ps):
    out = []
    for p in ps:
        q = p.args[0] if p.op == "elt" else p
        if p.op == "ite" and p.args[0] not in out:
            out.append(p.args[0])
    return out


def cat_diff(a, b, depth, seen):
    if depth < 40:
        pa, pb = explode(a), explode(b)
        ca, cb = piece_conds(pa), piece_conds(pb)
        if (ca or cb) and not (len(pa) == len(pb) and ca == cb) and len(set(ca) | set(cb)) <= 6:
            # case split on the guards of optional pieces
            extra = [c for c in ca if c not in cb] + [c for c in cb if c not in ca]
            r = leaf_diff(mk("split", a), mk("split", b), depth, seen, extra, sorted(set(ca) | set(cb), key=lambda c: c.dg))
            if not r:
                return _u(a, b, "cases")
            return r
    if a.op == "fm" and b.op == "fm":
        v = fv("w")
        h1, h2 = a.args[1].height + 1, b.args[1].height + 1
        x, y = subst(a.args[1], {mk("bv", h1): v}), subst(b.args[1], {mk("bv", h2): v})
        rn = diff(a.args[0], b.args[0], depth + 1, seen)
        rb = diff(x, y, depth + 1, seen)
        if rn and not definite(rn):
            rb = weaken(rb)
        return rn + rb
    pa, pb = explode(a), explode(b)
    i = 0
    while i < len(pa) and i < len(pb) and pa[i] is pb[i]:
        i += 1
    j = 0
    while j < len(pa) - i and j < len(pb) - i and pa[-1 - j] is pb[-1 - j]:
        j += 1
    ra, rb = pa[i:len(pa) - j], pb[i:len(pb) - j]
    if len(ra) == len(rb):
        out = []
        for x, y in zip(ra, rb):
            if x.op == y.op == "chr" and x.args[0] == y.args[0]:
                continue
            if x.op == y.op == "chr":
                out += _d(a, b, "text %r versus %r" % (x.args[0], y.args[0]))
            elif x.op == y.op == "elt":
                out += diff(x.args[0], y.args[0], depth + 1, seen)
            elif "chr" in (x.op, y.op):
                o = y if x.op == "chr" else x
                out += _d(a, b, "literal versus computed text") if o.op == "fmt" else _u(a, b, "text")
            elif "elt" in (x.op, y.op):
                out += _u(a, b, "element versus sequence")
            else:
                out += diff(x, y, depth + 1, seen)
        return out
    lit = lambda ps: all(p.op in ("chr", "elt", "fmt") for p in ps)
    if lit(ra) and lit(rb):
        return _d(a, b, "sequences differ: %s versus %s" % (brief(ra), brief(rb)))
    if not rb and all(p.op in ("chr", "elt", "fm", "fmt") for p in ra) or not ra and all(p.op in ("chr", "elt", "fm", "fmt") for p in rb):
        rest = ra or rb
        if any(p.op in ("chr", "elt", "fmt") for p in rest):
            return _d(a, b, "one side has extra %s" % brief(rest))
    if not rb and any(p.op in ("chr", "elt") for p in ra) or not ra and any(p.op in ("chr", "elt") for p in rb):
        return _d(a, b, "one side has extra %s" % brief(ra or rb))
    for p, q in ((ra, rb), (rb, ra)):
        # a literal element put inside a sequence instead of beside it
        lits = [x for x in p if x.op in ("elt", "chr")]
        if lits and len(q) == len(lits) + 1 and [x for x in q if x.op in ("elt", "chr")] == lits:
            whole = [x for x in q if x.op not in ("elt", "chr")]
            rest = [x for x in p if x.op not in ("elt", "chr")]
            if len(whole) == 1 and len(rest) == 2 and all(x.op == "sub" and x.args[0] is whole[0] for x in rest) and rest[0].args[2] is rest[1].args[1]:
                return _d(a, b, "element inserted at another position")
    return _u(a, b, "concatenation")


def brief(ps):
    s = "".join(p.args[0] if p.op == "chr" else "<%s>" % show(p)[:60] for p in ps)
    return repr(s[:120])


def explode(t):
    out = []
    for p in (t.args if t.op == "cat" else ([] if t.op == "empty" else [t])):
        if p.op == "str":
            out += [mk("chr", c) for c in p.args[0]]
        elif p.op in ("list", "tuple"):
            out += [mk("elt", c) for c in p.args]
        else:
            out.append(p)
    return out


def head(t):
    """what a quantity is made by: its operation, and for a call the function called"""
    return (t.op, t.args[0]) if t.op in ("call", "boolcall") and isinstance(t.args[0], str) else (t.op, t.args[1]) if t.op in ("meth", "attr") else t.op


def atoms_of(p):
    return set(x for m in p for x, _ in m)


def poly_diff(a, b, depth, seen):
    pa, pb = to_poly(a), to_poly(b)
    d = from_poly(TT._padd(pa, pb, -1))
    if d.op == "num":
        return [] if d.args[0] == 0 else _d(a, b, "values differ by %s" % d.args[0])
    A, B = atoms_of(pa), atoms_of(pb)
    if A == B:
        if any(x.op in SOFT for x in A) and False:
            return _u(a, b, "arith")
        return _d(a, b, "formulas over the same quantities differ")
    xa, xb = A - B, B - A
    for p, q, X in ((pa, pb, B), (pb, pa, A)):
        if not (atoms_of(p)) and X and not any(has_unk(x) or _stored(x) for x in X) and all(any(y.op == "sym" for y in subterms(x)) and x.op in ("sum", "idx", "attr", "sym", "int", "float", "meth") for x in X):
            return _d(a, b, "constant versus data")
    # pair up the differing atoms
    best = None
    if xa and xb and len(xa) == len(xb) and len(xa) <= 3:
        import itertools
        la = sorted(xa)
        for perm in itertools.permutations(sorted(xb)):
            m = dict(zip(perm, la))
            # do the polynomials agree once the atoms are identified?
            q = {}
            for mono, c in pb.items():
                mm = {}
                for x, e in mono:
                    y = m.get(x, x)
                    mm[y] = mm.get(y, 0) + e
                k = tuple(sorted(((x, e) for x, e in mm.items() if e != 0), key=lambda xe: xe[0].dg))
                q[k] = q.get(k, 0) + c
            same = from_poly(TT._padd(pa, q, -1))
            r = []
            for y, x in m.items():
                r += diff(x, y, depth + 1, seen)
            if same.op != "num" or same.args[0] != 0:
                if not r:
                    r = _d(a, b, "formulas differ")
                elif definite(r):
                    pass
                else:
                    r = r + _u(a, b, "formula")
            score = (sum(head(x) == head(y) for y, x in m.items()), len(definite(r)) == 0, -len(r))
            if best is None or score > best[0]:
                best = (score, r)
        return best[1]
    if INF in A or INF in B:
        return _u(a, b, "unbounded count")
    soft = [x for x in xa | xb if x.op in SOFT or x.op in UNIV or x.op in ("call", "meth", "fv", "ite", "arr", "mask")]
    if not soft:
        return _d(a, b, "different quantities in the formula")
    return _u(a, b, "formula")


def cond_diff(a, b, depth, seen):
    if a.op != b.op:
        if a.op == "bool" or b.op == "bool":
            o = b if a.op == "bool" else a
            if o.op in ("lt", "eq", "in", "is", "truthy", "boolcall"):
                return _d(a, b, "condition versus constant")
            return _u(a, b, "condition")
        return _u(a, b, "conditions")
    op = a.op
    if op == "lt":
        return poly_diff(a.args[0], b.args[0], depth, seen)
    if op == "eq":
        r1 = diff(a.args[0], b.args[0], depth + 1, seen) + diff(a.args[1], b.args[1], depth + 1, seen)
        r2 = diff(a.args[0], b.args[1], depth + 1, seen) + diff(a.args[1], b.args[0], depth + 1, seen)
        q1 = (a.args[0].op == b.args[0].op) + (a.args[1].op == b.args[1].op)
        q2 = (a.args[0].op == b.args[1].op) + (a.args[1].op == b.args[0].op)
        if q1 != q2:
            return r1 if q1 > q2 else r2
        for r in (r1, r2):
            if not definite(r):
                return r
        return r1 if len(r1) <= len(r2) else r2
    if op == "raises":
        return _u(a, b, "handler")
    if op in BIND1:
        return same_op(a, b, depth, seen)
    if op == "isinst":
        return _u(a, b, "type test")
    return tup_diff(a.args, b.args, a, b, depth, seen)


def top_conds(t, out=None):
    out = [] if out is None else out
    if t.op == "ite":
        if t.args[0] not in out:
            out.append(t.args[0])
        top_conds(t.args[1], out)
        top_conds(t.args[2], out)
    elif t.op in CONDOPS and t not in out:
        out.append(t)
    return out


def mirrored(cs):
    """p < 0 and 0 < p among the tests: of the three cases, the second is what the first and p == 0 leave"""
    lts = [c for c in cs if c.op == "lt"]
    for i, c in enumerate(lts):
        n = neg(c.args[0])
        for d in lts[:i]:
            if d.args[0] is n:
                x, y = sorted((c, d), key=lambda t: t.dg)
                return {y: ite(x, FALSE, ite(eq(x.args[0], num(0)), FALSE, TRUE))}
    return None


def ite_diff(a, b, depth, seen):
    for _ in range(8):
        m = mirrored(top_conds(a) + [c for c in top_conds(b) if c not in top_conds(a)])
        if not m:
            break
        a2, b2 = subst(a, m), subst(b, m)
        if a2 is a and b2 is b:
            break
        a, b = a2, b2
        if a is b:
            return []
        if a.op != "ite" or b.op != "ite":
            break
    ca, cb = top_conds(a), top_conds(b)
    xa = [c for c in ca if c not in cb]
    xb = [c for c in cb if c not in ca]
    if xa and xb:
        # identify guards that differ: pair them up, best first
        pairs = []
        for x in xa:
            for y in xb:
                r = cond_diff(x, y, depth + 1, seen) if x.op == y.op else None
                if r is not None:
                    pairs.append((x, y, r))
        ren = {}
        ds = []
        # compatible pairs: comparing with the guards identified
        pairs.sort(key=lambda p: (-likeness(p[0], p[1]), not definite(p[2]), len(p[2])))
        for x, y, r in pairs:
            if x in ren.values() or y in ren:
                continue
            ren[y] = x
            ds += r
        if ren:
            b2 = subst(b, ren)
            r = leaf_diff(a, b2, depth, seen, [c for c in top_conds(b2) if c not in ca] + [c for c in ca if c not in top_conds(b2)])
            if not r:
                return ds
            if definite(ds) and not definite(r):
                return ds
            if not definite(ds):
                # guards not comparable: everything below is undecided
                return weaken(ds + r, True)
            return ds + r
    return leaf_diff(a, b, depth, seen, xa + xb)


def likeness(x, y):
    """how far two equations test the same kind of thing"""
    if x.op != "eq" or y.op != "eq":
        return 0
    same = lambda p, q: p.op == q.op and (p.op != "attr" or p.args[1] == q.args[1])
    return max(same(x.args[0], y.args[0]) + same(x.args[1], y.args[1]), same(x.args[0], y.args[1]) + same(x.args[1], y.args[0]))


GUARDOK = ("lt", "in", "is", "boolcall", "eq", "truthy")


def guard_free(c):
    """can the guard be true as well as false? (no evidence otherwise)"""
    if c.op == "raises":
        return True
    if c.op not in GUARDOK:
        return False
    if has_unk(c):
        return False
    if c.op == "lt":
        p = to_poly(c.args[0])
        ats = atoms_of(p)
        if all(x.op in ("fv", "bv", "len", "abs") for x in ats):
            return False
        if any(x.op in ("brk", "fold", "mfold", "any", "all") for x in ats):
            return False
    if c.op == "eq":
        for x in c.args:
            for y in atoms_of(to_poly(x)) if x.op in ("poly",) else [x]:
                if y.op in ("brk", "fold", "mfold", "len", "sum", "fv", "bv"):
                    return False
    return True


def subjects(c):
    """what a guard looks at"""
    out = set()
    for x in c.args:
        if not isinstance(x, T) or x.op in CONST:
            continue
        for y in (atoms_of(to_poly(x)) if x.op == "poly" else [x]):
            out.add(y)
            if y.op in ("len", "abs", "int", "float"):
                out.add(y.args[0])
    return out


def _test(c):
    """(direction, predicate) of a comparison of one linear form of data with a constant; None for other tests"""
    if c.op == "eq":
        q = to_poly(sub(c.args[0], c.args[1]))
    elif c.op == "lt":
        q = to_poly(c.args[0])
    else:
        return None
    k = q.get((), 0)
    q = {m: v for m, v in q.items() if m != ()}
    if not q or not all(len(m) == 1 and m[0][1] == 1 and m[0][0].op == "idx" and not _stored(m[0][0]) for m in q):
        return None
    m0 = min(q, key=lambda m: repr(m))
    f = q[m0]
    q = frozenset((m, v / f) for m, v in q.items())
    if len(q) < 2:
        return None
    return q, (lambda v: f * v + k == 0) if c.op == "eq" else (lambda v: f * v + k < 0)


def _apart(c, d):
    """two tests of one difference of data, neither the other nor its negation where an equality test can hold at all"""
    a, b = _test(c), _test(d)
    if a is None or b is None or a[0] != b[0]:
        return False
    hold = [v for v in range(-8, 9) if (a if c.op == "eq" else b)[1](v)]
    if not hold:
        return False
    sides = [range(1, 12)] * (hold[0] >= 0) + [range(-11, 0)] * (hold[0] <= 0)
    return all(len(set(a[1](v) == b[1](v) for v in r)) == 2 for r in sides)


def related(cs):
    """two guards of different kinds on one subject: they may be the same test written differently"""
    sub = [(c, subjects(c)) for c in cs]
    if any(c.op == "raises" for c in cs) and any(c.op != "raises" for c in cs):
        return True     # looking before against asking for forgiveness
    for i, (c, s) in enumerate(sub):
        for d, t in sub[:i]:
            if c.op != d.op and (s & t or data_of(c) == data_of(d) != frozenset()):
                if not _apart(c, d):
                    return True
            if c.op == d.op and heads_of(c) != heads_of(d) and data_of(c) == data_of(d) != frozenset():
                return True     # one test through different library functions
    return False


def heads_of(c):
    return frozenset(x.args[0] if isinstance(x.args[0], str) else x.op for x in subterms(c) if x.op in ("call", "len", "abs", "set", "sum", "any", "all"))


def data_of(t, memo=None):
    """the program data a test looks at, below library calls"""
    out = set()

    def go(x):
        if not isinstance(x, T):
            if isinstance(x, tuple):
                for y in x:
                    go(y)
            return
        if x.op in CONST or x.op in ("ref", "bool"):
            return
        if x.op in ("idx", "meth", "attr", "sym", "fv", "bv", "key", "line", "lines"):
            if x.op == "attr" and x.args[1] in ("size", "shape", "T"):
                go(x.args[0])
            elif x.op == "idx" and x.args[0].op in ("attr", "call") and (x.args[0].op == "call" or x.args[0].args[1] == "shape"):
                go(x.args[0])
            else:
                out.add(x)
            return
        for y in x.args:
            go(y)
    go(t)
    return frozenset(out)


def leaf_diff(a, b, depth, seen, extra, split=()):
    """walk both decision diagrams together"""
    out = []
    budget = [400]
    extra = list(extra)
    rel = related(extra)
    both = set(c for t in ([a, b] if not split else []) for c in top_conds(t)) | set(split)

    def go(x, y, path):
        nonlocal rel
        budget[0] -= 1
        if budget[0] < 0:
            out.append(D(UNK, x, y, "too many cases"))
            return
        if x is y:
            return
        cs = [t.args[0] for t in (x, y) if t.op == "ite"]
        if not cs:
            if (x.op in CONDOPS or y.op in CONDOPS) and (x.op == "bool" or y.op == "bool"):
                # condition as a value against a constant: both outcomes
                o = y if x.op == "bool" else x
                ok = guard_free(o) and not (rel and (o in extra or any(p in extra for p in path)))
                out.append(D(DEF if ok and all(guard_free(p) for p in path if p in extra) else UNK, x, y, "guard present on one side only"))
                return
            r = diff(x, y, depth + 1, seen)
            for d in r:
                k = d.kind
                fz = d.frozen
                if any(p in extra and (rel or not guard_free(p)) for p in path):
                    k = UNK
                    fz = True
                if any(p in extra and p.op == "lt" for p in path) and any(z.op in ("max", "min", "abs") for t in (d.a, d.b) if isinstance(t, T) for z in subterms(t)):
                    k = UNK             # the guard may single out one of the candidates
                    fz = True
                w = d.why
                if any(p in extra for p in path):
                    w = w + " (under a guard only one side has)"
                out.append(D(k, d.a, d.b, w, d.was, fz))
            return
        mem = [c for t in (x, y) for c in top_conds(t) if c.op == "in" and c in extra]
        v = min(mem or cs, key=lambda t: (TT.odg(t), t.dg))
        if v not in both and v not in extra and not (v in top_conds(x) and v in top_conds(y)):
            extra.append(v)             # a test that took this form only after an equality was put in
            rel = rel or related(extra)
        xt, yt = restrict(x, v, True), restrict(y, v, True)
        xf, yf = restrict(x, v, False), restrict(y, v, False)
        if xt is yf and xf is yt and xt is not xf and v not in extra and not any(z.op == "unk" or z.op in ("undef", "cyc") for z in subterms(x)):
            fz = any(p in extra and (rel or not guard_free(p)) for p in path)
            out.append(D(UNK if fz else DEF, x, y, "outcomes of a test exchanged", None, fz))
            return
        m = solved(v)
        if m:
            xt, yt = subst(xt, m), subst(yt, m)
        go(xt, yt, path + [v])
        xf, yf = restrict(x, v, False), restrict(y, v, False)
        if v.op == "in":
            xf, yf = absent(xf, v), absent(yf, v)
        go(xf, yf, path + [v])

    def cases(x, y, cs, path):
        if not cs:
            return go(x, y, path)
        v = cs[0]
        cases(restrict(x, v, True), restrict(y, v, True), cs[1:], path + [v])
        cases(restrict(x, v, False), restrict(y, v, False), cs[1:], path + [v])
    if split:
        cases(a.args[0], b.args[0], list(split), [])
    else:
        go(a, b, [])
    return out


def absent(t, v):
    """nothing equals an element of a sequence it is not in"""
    c, seq = v.args
    hit = lambda x: x.op == "eq" and c in x.args and any(y.op == "idx" and y.args[0] is seq for y in x.args)
    memo = {}

    def go(x):
        if hit(x):
            return FALSE
        if x.op in ("num", "str", "bool", "none", "bv", "ref"):
            return x
        r = memo.get(x.dg)
        if r is None:
            r = memo[x.dg] = rebuild(x, go) if any(hit(y) for y in subterms(x)) else x
        return r
    return go(t)


def solved(v):
    """substitution implied by an equality guard that holds"""
    if v.op == "is":
        x, c = v.args
        if c.op in ("none", "bool"):
            return {x: c}
        if x.op in ("none", "bool"):
            return {c: x}
        return None
    if v.op != "eq":
        return None
    x, c = v.args
    if c.op == "str" and x.op in ("sym", "attr", "idx"):
        return {x: c}
    if x.op == "str" and c.op in ("sym", "attr", "idx"):
        return {c: x}
    p = TT._padd(to_poly(x), to_poly(c), -1)
    for mono, co in sorted(p.items(), key=lambda mc: str(mc[0])):
        if len(mono) == 1 and mono[0][1] == 1 and mono[0][0].op in ("sym", "attr", "idx", "fv", "int"):
            z = mono[0][0]
            rest = {m: -q / co for m, q in p.items() if m != mono}
            if not any(z is y for m in rest for a, _ in m for y in subterms(a)):
                return {z: from_poly(rest)}
    return None


# ------------------------------------------------------------- strengthening

NOHARD = ("fold", "mfold", "unk", "undef", "bottom", "caught", "cyc", "raises", "ext2")
LIBQ = ("call", "meth", "boolcall")


def vocab(t):
    """names of library functions and methods used in a term"""
    out = set()
    for x in subterms(t):
        if x.op in LIBQ:
            n = x.args[0] if x.op != "meth" else x.args[1]
            if x.op == "boolcall" and len(x.args) > 1 and isinstance(x.args[1], str):
                n = x.args[1]
            if isinstance(n, str):
                out.add(n)
    return out


BINDERS = ("fm", "sum", "brk", "any", "all", "prod", "maxo", "mino", "arr", "dmap")
SEQ = ("fm", "cat", "list", "empty", "tuple")
ROUNDING = ("floordiv", "mod", "floor", "ceil", "round", "int", "max", "min", "abs")
# shapes that may denote one value
TWINS = [{"carray", "call"}, {"carray", "fm"}, {"carray", "nparr"}, {"carray", "list"}, {"carray", "arr"}, {"arr", "nparr"}, {"nparr", "fm"}, {"nparr", "list"}, {"nparr", "cat"}, {"arr", "obj"}, {"arr", "list"}, {"arr", "fm"}, {"arr", "call"}, {"len", "sum"}, {"dmap", "dict"}, {"dmap", "fm"}, {"fm", "dict"}, {"brk", "sum"}, {"brk", "len"}, {"sum", "call"},
         {"set", "call"}, {"set", "fm"}, {"set", "list"}, {"key", "idx"}, {"cat", "join"}, {"new", "call"}, {"new", "meth"}, {"obj", "new"}, {"obj", "call"}, {"sortd", "call"}, {"sortd", "meth"},
         {"cat", "meth"}, {"cat", "call"}, {"fmt", "call"}, {"fmt", "meth"}, {"str", "meth"}, {"str", "call"}, {"lam", "ref"}, {"lam", "call"}, {"fm", "lam"}, {"dict", "call"}, {"nparr", "call"},
         {"poly", "call"}, {"join", "fm"}, {"join", "meth"}, {"join", "call"}, {"join", "idx"}, {"arr", "ite"}, {"fm", "idx"}, {"sub", "fm"}, {"sub", "idx"}, {"idx", "nparr"}, {"sub", "nparr"}, {"sortd", "idx"}, {"sortd", "fm"}, {"fm", "tuple"}, {"cat", "tuple"}]
ITER = {"enum", "zip", "range", "keys", "values", "items", "sortd"}


def inputs_of(t):
    """attributes of inputs, and inputs, that a term mentions"""
    r = set()
    for x in subterms(t):
        if x.op == "attr" and x.args[0].op == "sym":
            r.add(x)
        elif x.op == "sym":
            r.add(x)
    return set(x for x in r if not (x.op == "sym" and any(y.op == "attr" and y.args[0] is x for y in r)))


def hard(d, specvoc):
    """both sides fully interpreted and in the same vocabulary, so their normal forms speak for themselves"""
    a, b = d.a, d.b
    for t in (a, b):
        for x in subterms(t):
            if x.op in NOHARD or x.op in UNIV:
                return False
    va, vb = vocab(a), vocab(b)
    if va - specvoc:
        return False
    w = d.why.split(" (under")[0]
    if vb - va and any(x.op in BINDERS for x in subterms(a)) and sum(x.op in BINDERS for x in subterms(a)) > sum(x.op in BINDERS for x in subterms(b)):
        return False
    if w in ("depth", "too many cases", "type test", "handler", "key order", "callee", "bool/num", "slice end", "unbounded count", "arity", "store groups", "loop state", "unpacked arguments"):
        return False
    if w in ("condition", "conditions", "None", "kinds", "conversion"):
        return False
    if w == "concatenation":
        pa, pb = explode(a), explode(b)
        i = 0
        while i < len(pa) and i < len(pb) and pa[i] is pb[i]:
            i += 1
        j = 0
        while j < len(pa) - i and j < len(pb) - i and pa[-1 - j] is pb[-1 - j]:
            j += 1
        ra, rb = pa[i:len(pa) - j], pb[i:len(pb) - j]
        return not ra or not rb
    if w in ("element versus sequence", "text", "reference"):
        return False
    if w in ("formula", "summation range"):
        A, B = atoms_of(to_poly(a)), atoms_of(to_poly(b))
        if any(t.op == "brk" for t in (A ^ B)) and any(t.op == "idx" and t.args[1].op == "num" and t.args[1].args[0] not in (0, -1) for t in A ^ B):
            return True
        x = sorted(t.op for t in A - B)
        y = sorted(t.op for t in B - A)
        if not x and y and any(inputs_of(t) and not (inputs_of(t) & inputs_of(a)) for t in B - A):
            return True     # the required result depends on an input the code's result never mentions
        if any(t.op in ROUNDING or t.op in ("call", "meth", "ite") for t in (A - B) | (B - A)) and x != y:
            return False
        if "sum" in x + y or "len" in x + y:
            return False
        return True
    if " versus " in w and a.op != b.op:
        if {a.op, b.op} in TWINS or a.op in ITER or b.op in ITER:
            return False
        if "ite" in (a.op, b.op) or a.op in CONDOPS or b.op in CONDOPS:
            return False
        if {a.op, b.op} == {"idx", "brk"}:
            i = a if a.op == "idx" else b
            return i.args[1].op == "num"
        if "brk" in (a.op, b.op) or "sum" in (a.op, b.op) or "len" in (a.op, b.op):
            return False
        return True
    if w == "selection":
        return True
    return False


def compare(a, b):
    """-> (status, [D]) with status in equal / differ / undecided; a is the repository's term, b the reference's"""
    a, b = loosen(a), loosen(b)
    if a is b:
        if has_unk(a):
            return "undecided", [D(UNK, a, b, "value not tracked on both sides")]
        return "equal", []
    note_lengths((a, b))
    ds = diff(a, b)
    if not ds:
        return "equal", []
    df = definite(ds)
    if df:
        return "differ", df
    voc = vocab(b)
    if all(d.frozen is False and (d.was == DEF or hard(d, voc)) for d in ds):
        return "differ", [D(DEF, d.a, d.b, d.why) for d in ds]
    return "undecided", ds
