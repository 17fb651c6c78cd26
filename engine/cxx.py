"""C++ front end: clang's type-checked syntax tree, re-expressed as Python modules for the same analysis.

`cxx.<unit>` modules are produced from a translation unit that includes the headers/sources of that unit and instantiates the
class templates.  Only the syntax tree is used; nothing is compiled to code or run."""
import json
import os
import re
import subprocess
import tempfile

CASTS = ("ImplicitCastExpr", "ParenExpr", "CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr", "ExprWithCleanups", "MaterializeTemporaryExpr",
         "CXXBindTemporaryExpr", "ConstantExpr", "SubstNonTypeTemplateParmExpr", "CXXReinterpretCastExpr", "CXXConstCastExpr")
DROP = {"free", "printf", "fprintf", "_mm_free", "fflush", "puts", "perror", "system"}
MATH = {"sqrt": "np.sqrt", "exp": "np.exp", "cos": "np.cos", "sin": "np.sin", "acos": "np.arccos", "log": "np.log", "fabs": "np.abs", "abs": "np.abs",
        "floor": "np.floor", "ceil": "np.ceil", "tan": "np.tan", "floorf": "np.floor", "ceilf": "np.ceil", "sqrtf": "np.sqrt", "tanh": "np.tanh", "round": "np.round", "fmod": "__cmod__"}

UNITS = {
    "nblist": (["core/include/vec3Operation.h", "core/include/arrayUtils.h", "nblist/include/structure.h", "nblist/include/binLinkedList.h", "nblist/include/neighborList.h"],
               ["class matersdk::Structure<double>", "class matersdk::Supercell<double>", "class matersdk::BinLinkedList<double>", "class matersdk::NeighborList<double>",
                "double matersdk::vec3Operation::dot<double>(double*, double*)", "double* matersdk::vec3Operation::cross<double>(double*, double*)",
                "double* matersdk::vec3Operation::normalize<double>(double*)", "double matersdk::vec3Operation::norm<double>(double*)"]),
    "deepmd": (["nblist/include/structure.h", "descriptor/deepmd/include/se.h", "descriptor/deepmd/include/se4pw.h", "descriptor/deepmd/include/envMatrix.h"],
               ["class matersdk::deepPotSE::TildeR<double>", "class matersdk::deepPotSE::PairTildeR<double>", "class matersdk::deepPotSE::SwitchFunc<double>",
                "class matersdk::deepPotSE::Se4pw<double>", "class matersdk::deepPotSE::EnvMatrix<double>"]),
    "mtp": (["descriptor/mtp/src/mtpLevel.cc", "descriptor/mtp/include/mtpMRadial.h"],
            ["class matersdk::mtp::MtpSwitchFunc1<double>", "class matersdk::mtp::MtpSwitchFunc2<double>", "class matersdk::mtp::ChebyshevPoly<double>", "class matersdk::mtp::MtpQ<double>"]),
    "mtpr": (["descriptor/mtpr/include/basis.h", "descriptor/mtpr/src/mtpParam.cc"],
             ["class matersdk::mtpr::SwitchFunction<double>", "class matersdk::mtpr::RB_Chebyshev<double>", "class matersdk::mtpr::RQ_Chebyshev<double>"]),
}


class Unsupported(Exception):
    pass


def strip(n):
    while n.get("kind") in CASTS and n.get("inner"):
        n = n["inner"][0]
    return n


def qt(n):
    t = n.get("type") or {}
    return t.get("desugaredQualType") or t.get("qualType") or ""


def isint(t):
    t = t.replace("const ", "").replace("&", "").strip()
    return t in ("int", "long", "unsigned int", "unsigned long", "short", "char", "unsigned char", "long long", "unsigned long long", "bool", "signed char", "size_t", "std::size_t", "size_type", "int64_t", "int32_t", "unsigned", "difference_type")


def isptr(t):
    t = t.strip()
    return t.endswith("*") or t.endswith("*const") or t.endswith("]") or "(*" in t


def ispair(t):
    return bool(re.match(r"(const )?(class |struct )?(std::)?pair<", t)) and not isptr(t)


def ismap(t):
    return bool(re.match(r"(const )?(class |struct )?std::(unordered_)?map<", t)) and not isptr(t)


def kids(n):
    return [x for x in n.get("inner", []) or [] if x]


def walk(n):
    yield n
    for x in kids(n):
        for y in walk(x):
            yield y


def isexpr(x):
    return x.get("kind", "").endswith(("Expr", "Literal", "Operator", "Cleanups"))


def sane(s):
    return re.sub(r"\W+", "_", s).strip("_")


OPNAMES = {"=": "assign", "[]": "getitem", "()": "call", "+": "add", "-": "sub", "*": "mul", "/": "div", "==": "eq", "+=": "iadd", "-=": "isub", "*=": "imul", "/=": "idiv", "<": "lt", "!=": "ne"}


class Unit(object):
    def __init__(self, objs, keep):
        self.keep = keep
        self.fn = {}          # decl id -> python name
        self.cls = {}         # class name -> (node, [methods])
        self.funcs = []       # (pyname, node)
        self.idcls = {}
        self.taken = set()
        self.byname = {}
        self.failed = []
        self.outofline = []
        self.consts = {}
        self.meth = {}        # (class, py) -> node
        self.static = set()   # (class, py) of the static members
        for o in objs:
            self.scan(o, [])
        for m in self.outofline:
            self.place(m)

    # ---------------------------------------------------------------- declarations
    def scan(self, n, ns):
        k = n.get("kind")
        if k == "NamespaceDecl" or k == "LinkageSpecDecl":
            for x in kids(n):
                self.scan(x, ns + [n.get("name", "")])
        elif k == "ClassTemplateDecl":
            for x in kids(n):
                if x.get("kind") == "ClassTemplateSpecializationDecl":
                    self.scan(x, ns)
        elif k in ("CXXRecordDecl", "ClassTemplateSpecializationDecl"):
            if not n.get("completeDefinition"):
                return
            self.klass(n)
        elif k == "FunctionTemplateDecl":
            for x in kids(n):
                if x.get("kind") == "FunctionDecl" and any(y.get("kind") == "TemplateArgument" for y in kids(x)):
                    self.func(x)
        elif k == "FunctionDecl":
            self.func(n)
        elif k == "VarDecl" and [x for x in kids(n) if isexpr(x)]:
            self.consts[n["id"]] = n
        elif k in ("CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl") and n.get("parentDeclContextId"):
            self.outofline.append(n)

    def owned(self, n):
        """members held by value whose destructors follow the destructor of their owner"""
        i = n["id"]
        c = self.meth.get(i, (None,))[0]
        out = []
        if c:
            for x in kids(self.cls[c][0]):
                if x.get("kind") == "FieldDecl" and not isptr(qt(x)):
                    b = re.sub(r"<.*", "", qt(x).replace("const ", "")).split("::")[-1].strip()
                    if b in self.cls and "dtor" in dict(self.cls[b][1]):
                        out.append((x["name"], b))
        return out[::-1]

    def params(self, n):
        return [x for x in kids(n) if x.get("kind") == "ParmVarDecl"]

    def body(self, n):
        for x in kids(n):
            if x.get("kind") == "CompoundStmt":
                return x

    def func(self, n):
        ps = self.params(n)
        base = "%s__%d" % (n.get("name"), len(ps))
        base = self.opname(base)
        sig = tuple(qt(p) for p in ps)
        self.fn.setdefault(n["id"], None)
        if self.body(n) is None:
            self.byname.setdefault((base, sig), []).append(n["id"])
            return
        nm = base
        i = 1
        while nm in self.taken:
            i += 1
            nm = base + "_" + "_".join(sane(t) for t in sig)
            if nm in self.taken:
                nm += "_%d" % i
        self.taken.add(nm)
        self.fn[n["id"]] = nm
        if n.get("previousDecl"):
            self.fn[n["previousDecl"]] = nm
        for i in self.byname.get((base, sig), []):
            self.fn[i] = nm
        self.funcs.append((nm, n))

    def opname(self, s):
        m = re.match(r"operator(.+?)(__\d+)$", s)
        if m and m.group(1) in OPNAMES:
            return "op_" + OPNAMES[m.group(1)] + m.group(2)
        return s

    def methname(self, cname, n):
        ps = self.params(n)
        t = qt(ps[0]) if ps else ""
        own = bool(re.search(r"(^|[ :])%s(<[^>]*>)? ?(&|&&)$" % re.escape(cname), t.replace("const ", "")))
        if n["kind"] == "CXXConstructorDecl":
            if len(ps) == 1 and own:
                return "ctor_move" if t.endswith("&&") else "ctor_copy"
            return "ctor__%d" % len(ps)
        if n["kind"] == "CXXDestructorDecl":
            return "dtor"
        if n.get("name") == "operator=":
            return "assign_move" if t.endswith("&&") else "assign_copy"
        return self.opname("%s__%d" % (n.get("name"), len(ps)))

    def klass(self, n):
        name = n["name"]
        if name in self.cls:
            if n["kind"] == "CXXRecordDecl":
                return
            # a second instantiation of the template: keep the first
            for x in kids(n):
                if x.get("kind") in ("CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl"):
                    self.fn.setdefault(x["id"], self.methname(name, x))
            return
        self.cls[name] = (n, [])
        self.idcls[n["id"]] = name
        seen = {}
        todo = []
        for x in kids(n):
            if x.get("kind") == "FunctionTemplateDecl":
                todo += [y for y in kids(x) if y.get("kind") == "CXXMethodDecl" and any(z.get("kind") == "TemplateArgument" for z in kids(y))]
            else:
                todo.append(x)
        for x in todo:
            if x.get("kind") in ("CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl"):
                if x.get("isImplicit"):
                    self.fn[x["id"]] = "implicit:" + x["kind"]
                    continue
                nm = self.methname(name, x)
                if nm in seen:
                    nm = nm + "_" + "_".join(sane(qt(p)) for p in self.params(x))
                seen[nm] = 1
                self.fn[x["id"]] = nm
                if x.get("storageClass") == "static":
                    self.static.add((name, nm))
                if self.body(x) is not None:
                    self.cls[name][1].append((nm, x))
                self.meth[x["id"]] = (name, nm)
            elif x.get("kind") in ("CXXRecordDecl",) and x.get("completeDefinition"):
                self.klass(x)

    def place(self, n):
        p = n.get("previousDecl")
        if p in self.meth and self.body(n) is not None:
            c, nm = self.meth[p]
            self.fn[n["id"]] = nm
            self.meth[n["id"]] = (c, nm)
            have = [i for i, (m, x) in enumerate(self.cls[c][1]) if m == nm]
            if not have:
                self.cls[c][1].append((nm, n))

    # ---------------------------------------------------------------- emission
    def emit(self):
        out = ["import numpy as np", "import copy", ""]
        for nm, n in self.funcs:
            out += self.function(nm, n, None)
        for c, (n, ms) in self.cls.items():
            bases = [b["type"]["qualType"] for b in n.get("bases", []) or []]
            bases = [re.sub(r"<.*", "", b).split("::")[-1] for b in bases]
            out.append("class %s(%s):" % (c, ", ".join(b for b in bases if b in self.cls) or "object"))
            out.append("    def __init__(self):")
            k = len(out)
            for x in kids(n):
                if x.get("kind") == "FieldDecl":
                    f = Fn(self, None, True)
                    init = [y for y in kids(x) if isexpr(y)]
                    try:
                        v = f.expr(init[0]) if init else f.default(x)
                    except Unsupported as e:
                        v = "__unk__(%r)" % str(e)
                    out.append("        self.%s = %s" % (x.get("name"), v))
            if len(out) == k:
                out.append("        pass")
            for x in kids(n):
                if x.get("kind") == "VarDecl" and kids(x):
                    f = Fn(self, None, True)
                    try:
                        out.append("    %s = %s" % (x["name"], f.expr(kids(x)[-1])))
                    except Unsupported:
                        pass
            for nm, m in ms:
                out += ["    " + l for l in self.function(nm, m, c)]
            out.append("")
        return "\n".join(out) + "\n"

    def function(self, nm, n, cls):
        static = (cls, nm) in self.static
        f = Fn(self, n, cls is not None and not static)
        deco = ["@staticmethod"] if static else []
        try:
            return deco + f.define(nm)
        except Unsupported as e:
            self.failed.append((cls, nm, str(e)))
            ps = ["self"] if cls is not None and not static else []
            return deco + ["def %s(%s):" % (nm, ", ".join(ps + ["*args"])), "    return __unk__(%r)" % str(e)]


class Fn(object):
    def __init__(self, unit, node, method):
        self.u, self.n, self.method = unit, node, method
        self.names = {}
        self.used = set(["self", "np", "copy"])
        self.alias = {}
        self.tmp = 0
        self.outs = []
        self.incs = []
        self.pre = []

    def fresh(self, b):
        self.tmp += 1
        return "%s_%d" % (b, self.tmp)

    def name(self, d):
        i = d["id"]
        if i not in self.names:
            b = d.get("name") or "anon"
            if b in ("in", "is", "lambda", "def", "from", "None", "self", "pass", "not", "and", "or", "len", "range", "min", "max", "list", "int"):
                b += "_"
            c, k = b, 1
            while c in self.used:
                k += 1
                c = "%s_%d" % (b, k)
            self.used.add(c)
            self.names[i] = c
        return self.names[i]

    def default(self, d):
        t = qt(d)
        base = re.sub(r"<.*", "", t.replace("const ", "")).split("::")[-1].strip()
        m = re.match(r".*?((\[[^\]]+\])+)$", t)
        if m:
            dims = []
            for x in re.findall(r"\[([^\]]+)\]", m.group(1)):
                if not x.isdigit():
                    x = x if x in self.used and list(self.names.values()).count(x) == 1 else "None"
                dims.append(x)
            return "__carray__(%s)" % ", ".join(dims)
        if t.startswith(("std::vector", "const std::vector", "std::map", "std::unordered_map", "class std::vector", "std::set", "std::basic_string")):
            return "[]" if "vector" in t else ("''" if "string" in t else "set()" if t.startswith("std::set") else "{}")
        if ispair(t):
            return "(0, 0)"
        if base in self.u.cls and not t.rstrip().endswith("*"):
            return self.construct(base, "ctor__0", [])
        return "None"

    def construct(self, cname, ctor, args):
        ms = dict(self.u.cls[cname][1])
        if ctor not in ms:
            if ctor == "ctor__0":
                return "%s()" % cname
            raise Unsupported("constructor %s of %s" % (ctor, cname))
        return "%s().%s(%s)" % (cname, ctor, ", ".join(args))

    # ------------------------------------------------------------ functions
    def assigned(self, body, did):
        for x in walk(body):
            k = x.get("kind")
            if k in ("BinaryOperator", "CompoundAssignOperator") and (x.get("opcode") == "=" or k == "CompoundAssignOperator"):
                t = strip(kids(x)[0])
            elif k == "UnaryOperator" and x.get("opcode") in ("++", "--"):
                t = strip(kids(x)[0])
            elif k == "UnaryOperator" and x.get("opcode") == "&":
                t = strip(kids(x)[0])
            else:
                continue
            if t.get("kind") == "DeclRefExpr" and t["referencedDecl"]["id"] == did:
                return True
        return False

    def define(self, nm):
        ps = self.u.params(self.n)
        body = self.u.body(self.n)
        args = []
        for p in ps:
            a = self.name(p)
            t = qt(p)
            init = [x for x in kids(p) if isexpr(x)]
            if init:
                a += "=" + self.expr(init[0])
            args.append(a)
        for k, p in enumerate(ps):
            t = qt(p)
            if t.rstrip().endswith("&") and not t.startswith("const") and (isint(t) or t.replace("&", "").strip() in ("double", "float") or isptr(t.rstrip("& "))) and self.assigned(body, p["id"]):
                self.outs.append((k, self.name(p)))
        head = "def %s(%s):" % (nm, ", ".join((["self"] if self.method else []) + args))
        out = []
        if self.n["kind"] == "CXXConstructorDecl":
            for x in kids(self.n):
                if x.get("kind") == "CXXCtorInitializer":
                    f = x.get("anyInit")
                    if f:
                        v = kids(x)
                        if v and strip(v[0]).get("kind") not in ("CXXDefaultInitExpr",):
                            out.append("self.%s = %s" % (f["name"], self.expr(v[0])))
                    elif x.get("baseInit"):
                        raise Unsupported("base initialiser")
        for p in ps:
            t = qt(p)
            if "std::vector" in t and not t.rstrip().endswith(("&", "*")):
                out.append("%s = list(%s)" % (self.name(p), self.name(p)))
        out += self.block(body)
        if self.n["kind"] == "CXXConstructorDecl":
            out.append("return self")
        elif self.n["kind"] == "CXXDestructorDecl":
            for f, c in self.u.owned(self.n):
                out.append("self.%s.dtor()" % f)
        elif self.outs and qt(self.n).startswith("void"):
            out.append("return (%s,)" % ", ".join(o for _, o in self.outs))
        elif self.outs:
            raise Unsupported("reference out-parameter with a result")
        elif not re.match(r"(const )?void\b(?! ?\*)", (self.n.get("type") or {}).get("qualType", "void")) and not self.n.get("name") == "main" and self.falls(body):
            out.append("__flowoff__()")
        return [head] + ["    " + l for l in (out or ["pass"])]

    def falls(self, n):
        """may control reach the end of this statement?"""
        k = n.get("kind")
        if k == "CompoundStmt":
            return all(self.falls(x) for x in kids(n))
        if k in ("ReturnStmt", "CXXThrowExpr"):
            return False
        if k == "ExprWithCleanups":
            return self.falls(kids(n)[0])
        if k == "IfStmt":
            xs = kids(n)
            return len(xs) < 3 or self.falls(xs[1]) or self.falls(xs[2])
        if k == "CallExpr":
            f = strip(kids(n)[0])
            return not (f.get("kind") == "DeclRefExpr" and f["referencedDecl"]["name"] in ("exit", "abort", "__assert_fail", "_Exit", "terminate", "__builtin_unreachable"))
        if k in ("WhileStmt", "ForStmt", "DoStmt", "SwitchStmt", "CXXTryStmt", "AttributedStmt", "LabelStmt", "GotoStmt", "CXXForRangeStmt"):
            return not any(x.get("kind") in ("ReturnStmt", "CXXThrowExpr", "GotoStmt") for x in walk(n))     # assume the best
        return True

    def block(self, n):
        if n.get("kind") != "CompoundStmt":
            return self.stmt(n) or ["pass"]
        out = []
        for x in kids(n):
            out += self.stmt(x)
        return out or ["pass"]

    def ind(self, ls):
        return ["    " + l for l in (ls or ["pass"])]

    def stmt(self, n):
        saved, self.pre = self.pre, []
        out = self.stmt_(n)
        out = self.pre + out
        self.pre = saved
        return out

    def stmt_(self, n):
        k = n.get("kind")
        if k == "CompoundStmt":
            return self.block(n)
        if k == "NullStmt":
            return []
        if k == "DeclStmt":
            out = []
            for d in kids(n):
                if d.get("kind") == "VarDecl":
                    out += self.vardecl(d)
                elif d.get("kind") in ("TypeAliasDecl", "TypedefDecl", "UsingDecl", "UsingDirectiveDecl", "StaticAssertDecl"):
                    pass
                else:
                    raise Unsupported("declaration " + str(d.get("kind")))
            return out
        if k == "ReturnStmt":
            v = kids(n)
            if self.outs:
                return ["return (%s,)" % ", ".join(o for _, o in self.outs)]
            if self.n["kind"] == "CXXConstructorDecl":
                return ["return self"]
            if not v:
                return ["return None"]
            x = strip(v[0])
            if x.get("kind") == "CXXConstructExpr" and len(kids(x)) == 1 and strip(kids(x)[0]).get("kind") == "DeclRefExpr":
                return ["return " + self.expr(strip(kids(x)[0]))]
            return ["return " + self.expr(v[0])]
        if k == "IfStmt":
            xs = kids(n)
            if n.get("hasInit") or n.get("hasVar"):
                raise Unsupported("if with declaration")
            out = ["if %s:" % self.cond(xs[0])] + self.ind(self.block(xs[1]))
            if len(xs) > 2:
                out += ["else:"] + self.ind(self.block(xs[2]))
            return out
        if k == "ForStmt":
            return self.forstmt(n)
        if k == "WhileStmt":
            xs = kids(n)
            self.incs.append([])
            b = self.block(xs[1])
            self.incs.pop()
            return ["while %s:" % self.cond(xs[0])] + self.ind(b)
        if k == "DoStmt":
            xs = kids(n)
            self.incs.append([])
            b = self.block(xs[0])
            self.incs.pop()
            return ["while True:"] + self.ind(b + ["if not (%s):" % self.cond(xs[1]), "    break"])
        if k == "CXXForRangeStmt":
            xs = kids(n)
            var = [y for y in walk(xs[-2]) if y.get("kind") == "VarDecl"][0]
            rng = [y for y in walk(xs[0] if xs[0].get("kind") == "DeclStmt" else xs[1]) if y.get("kind") == "VarDecl"][0]
            src = self.expr(kids(rng)[0])
            if ismap(qt(strip(kids(rng)[0]))):
                src += ".items()"
            self.incs.append([])
            b = self.block(xs[-1])
            self.incs.pop()
            v = self.name(var)
            if re.match(r"(const )?(class )?std::vector<", qt(var)) and any(re.search(r"(?<![\w.])%s\.(append|clear|extend|pop|insert)\(|__csort__\(%s\b|(?<![\w.])%s(\[[^=]*\])? = " % (v, v, v), l) for l in b):
                if "&" in qt(var):                       # the elements change in place: a copy will do while nobody looks at the container again
                    box = strip(kids(rng)[0])
                    used = [y for y in walk(self.n) if y.get("kind") == "DeclRefExpr" and box.get("kind") == "DeclRefExpr" and y["referencedDecl"]["id"] == box["referencedDecl"]["id"]]
                    if len(used) != 1:
                        raise Unsupported("elements changed in place through a range-for reference")
                b = ["%s = list(%s)" % (v, v)] + b
            return ["for %s in %s:" % (v, src)] + self.ind(b)
        if k == "ContinueStmt":
            return list(self.incs[-1]) + ["continue"]
        if k == "BreakStmt":
            return ["break"]
        if k == "SwitchStmt":
            return self.switch(n)
        return self.exprstmt(n)

    def switch(self, n):
        xs = kids(n)
        sub = self.fresh("sw")
        out = ["%s = %s" % (sub, self.expr(xs[0]))]
        groups, labels, cur = [], [], None
        def flat(x):
            nonlocal cur, labels
            if x.get("kind") in ("CaseStmt", "DefaultStmt"):
                ys = kids(x)
                lab = None if x["kind"] == "DefaultStmt" else self.expr(ys[0])
                if cur is None or cur[1]:
                    cur = ([], [])
                    groups.append(cur)
                cur[0].append(lab)
                flat(ys[-1])
            else:
                cur[1].append(x)
        for x in kids(xs[-1]):
            flat(x)
        first = True
        for labs, body in groups:
            if not body or not any(body[-1].get("kind") == q for q in ("BreakStmt", "ReturnStmt")):
                if (labs, body) != groups[-1]:
                    raise Unsupported("switch fallthrough")
            b = []
            for x in body:
                if x.get("kind") != "BreakStmt":
                    b += self.stmt(x)
            if None in labs:
                out += (["else:"] if not first else ["if True:"]) + self.ind(b)
            else:
                out += ["%s %s:" % ("if" if first else "elif", " or ".join("%s == %s" % (sub, l) for l in labs))] + self.ind(b)
            first = False
        return out

    def ismalloc(self, n):
        n = strip(n)
        if n.get("kind") == "CallExpr":
            f = strip(kids(n)[0])
            return f.get("kind") == "DeclRefExpr" and f["referencedDecl"]["name"] in ("malloc", "calloc", "_mm_malloc")
        return n.get("kind") == "CXXNewExpr" and n.get("isArray")

    def vardecl(self, d):
        xs = [x for x in kids(d) if isexpr(x)]
        t = qt(d)
        if not xs:
            v = self.default(d)
            if v == "None" and not isptr(t):
                self.name(d)
                return ["%s = __undef__()" % self.name(d)] if False else []
            return ["%s = %s" % (self.name(d), v)]
        x = strip(xs[0])
        if x.get("kind") == "ArraySubscriptExpr" and (isptr(t) or t.rstrip().endswith("&")) and not self.assigned(self.u.body(self.n), d["id"]):
            self.alias[d["id"]] = x
            return []
        if t.rstrip().endswith("&") and not t.startswith("const") and (x.get("kind") in ("MemberExpr", "CXXOperatorCallExpr", "DeclRefExpr")):
            self.alias[d["id"]] = x
            return []
        v = self.expr(xs[0])
        if self.ismalloc(xs[0]):
            v = self.rowptr(xs[0], t) or v
            v = self.withrows(v, lambda b: b.get("kind") == "DeclRefExpr" and b["referencedDecl"]["id"] == d["id"], t)
        return ["%s = %s" % (self.name(d), v)]

    def withrows(self, v, isbase, t):
        """dimensions of the rows allocated later in this function"""
        if not v.startswith("__carray__(") or t.count("*") < 2:
            return v
        dims = {}
        for x in walk(self.u.body(self.n)):
            if x.get("kind") == "BinaryOperator" and x.get("opcode") == "=" and self.ismalloc(kids(x)[1]):
                b, depth = strip(kids(x)[0]), 0
                while b.get("kind") == "ArraySubscriptExpr":
                    b = strip(kids(b)[0])
                    depth += 1
                if depth and isbase(b) and depth not in dims:
                    c = strip(kids(x)[1])
                    bad = [y for y in walk(c) if y.get("kind") == "DeclRefExpr" and y["referencedDecl"].get("kind") == "VarDecl" and y["referencedDecl"]["id"] not in self.names]
                    if bad:
                        dims[depth] = ["None"]
                    elif c.get("kind") == "CXXNewExpr":
                        dims[depth] = [self.expr(kids(c)[0])]
                    else:
                        cnt, rows = self.nbytes(kids(c)[1])
                        dims[depth] = [cnt or "None"] + rows
        out = [v[:-1]]
        for k in range(1, t.count("*")):
            out += dims.get(k, ["None"])
        return ", ".join(out) + ")"

    def forstmt(self, n):
        xs = n["inner"]
        init, cond, inc, body = xs[0], xs[2], xs[3], xs[4]
        r = self.rangeform(init, cond, inc, body)
        if r:
            v, a, b, s = r
            rng = "range(%s)" % (b if a == "0" and s == "1" else "%s, %s" % (a, b) if s == "1" else "%s, %s, %s" % (a, b, s))
            self.incs.append([])
            bd = self.block(body)
            self.incs.pop()
            return ["for %s in %s:" % (v, rng)] + self.ind(bd)
        out = self.stmt(init) if init else []
        step = self.stmt(inc) if inc else []
        self.incs.append(step)
        bd = self.block(body)
        self.incs.pop()
        return out + ["while %s:" % (self.cond(cond) if cond else "True")] + self.ind(bd + step)

    def rangeform(self, init, cond, inc, body):
        if not (init and cond and inc):
            return None
        if init.get("kind") == "DeclStmt" and len(kids(init)) == 1:
            d = kids(init)[0]
            iv = kids(d)
            if not iv:
                return None
            i0 = iv[-1]
            did = d["id"]
        else:
            return None
        if not isint(qt(d)):
            return None
        c = strip(cond)
        if c.get("kind") != "BinaryOperator" or c.get("opcode") not in ("<", "<=", ">", ">=", "!="):
            return None
        l, r = kids(c)
        op = c["opcode"]
        isv = lambda e: strip(e).get("kind") == "DeclRefExpr" and strip(e)["referencedDecl"]["id"] == did
        if not isv(l):
            if not isv(r):
                return None
            l, r, op = r, l, {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "!=": "!="}[op]
        i = strip(inc)
        if i.get("kind") == "UnaryOperator" and i.get("opcode") in ("++", "--") and isv(kids(i)[0]):
            s = 1 if i["opcode"] == "++" else -1
            st = str(s)
        elif i.get("kind") == "CompoundAssignOperator" and i.get("opcode") in ("+=", "-=") and isv(kids(i)[0]) and strip(kids(i)[1]).get("kind") == "IntegerLiteral":
            s = 1 if i["opcode"] == "+=" else -1
            st = str(s * int(strip(kids(i)[1])["value"]))
        else:
            return None
        if self.assigned(body, did):
            return None
        for x in walk(r):
            if x.get("kind") == "DeclRefExpr" and x["referencedDecl"].get("kind") == "VarDecl" and self.assigned(body, x["referencedDecl"]["id"]):
                return None
        rt = self.expr(r)
        if not isint(qt(r)) and qt(r) in ("double", "float"):
            rt = "int(np.ceil(%s))" % rt if op in ("<",) else rt
        if s > 0 and op == "<":
            b = rt
        elif s > 0 and op == "<=":
            b = "%s + 1" % rt
        elif s > 0 and op == "!=" and st == "1":
            b = rt
        elif s < 0 and op == ">=":
            b = "%s - 1" % rt
        elif s < 0 and op == ">":
            b = rt
        else:
            return None
        return self.name(d), self.expr(i0), b, st

    # ------------------------------------------------------------ statements that are expressions
    def exprstmt(self, n):
        n = strip(n)
        k = n.get("kind")
        if k == "BinaryOperator" and n.get("opcode") == "=":
            l, r = kids(n)
            return self.assign(l, r)
        if k == "BinaryOperator" and n.get("opcode") == ",":
            return self.exprstmt(kids(n)[0]) + self.exprstmt(kids(n)[1])
        if k == "CompoundAssignOperator":
            l, r = kids(n)
            op = n["opcode"][:-1]
            t = self.lv(l)
            m = self.mapslot(l)
            if m:
                return ["%s[%s] = %s.get(%s, 0) %s (%s)" % (m[0], m[1], m[0], m[1], op, self.expr(r))]
            if op == "/" and isint(qt(l)):
                return ["%s //= %s" % (t, self.expr(r))]
            if op == "%":
                return ["%s = __cmod__(%s, %s)" % (t, t, self.expr(r))]
            if isint(qt(l)) and qt(r) in ("double", "float"):
                return ["%s = int(%s %s (%s))" % (t, t, op, self.expr(r))]
            return ["%s %s= %s" % (t, op, self.expr(r))]
        if k == "UnaryOperator" and n.get("opcode") in ("++", "--"):
            m = self.mapslot(kids(n)[0])
            if m:
                return ["%s[%s] = %s.get(%s, 0) %s 1" % (m[0], m[1], m[0], m[1], n["opcode"][0])]
            return ["%s %s= 1" % (self.lv(kids(n)[0]), n["opcode"][0])]
        if k == "ConditionalOperator" and any(x.get("kind") == "DeclRefExpr" and x["referencedDecl"].get("name") == "__assert_fail" for x in walk(n)):
            return ["assert %s" % self.cond(kids(n)[0])]
        if k == "CXXDeleteExpr" and kids(n):
            return self.release(kids(n)[0])
        if k == "CXXDeleteExpr":
            return []
        if k == "CallExpr":
            f = strip(kids(n)[0])
            if f.get("kind") == "DeclRefExpr":
                r = self.callstmt(f["referencedDecl"], kids(n)[1:], n)
                if r is not None:
                    return r
            return [self.expr(n)]
        if k == "CXXOperatorCallExpr":
            f = strip(kids(n)[0])
            op = f["referencedDecl"]["name"] if f.get("kind") == "DeclRefExpr" else ""
            a = kids(n)[1:]
            if op == "operator=":
                return self.assign(a[0], a[1], f["referencedDecl"])
            if op == "operator<<":
                return []
            if op in ("operator+=", "operator-=", "operator*=", "operator/=") and f["referencedDecl"]["id"] not in self.u.fn:
                return ["%s %s %s" % (self.lv(a[0]), op[8:], self.expr(a[1]))]
            if op in ("operator++",):
                return ["%s += 1" % self.lv(a[0])]
            return [self.expr(n)]
        if k == "CXXMemberCallExpr":
            return self.membercall(n, True)
        if k == "CXXThrowExpr":
            return ["raise Exception()"]
        if k in ("CXXConstructExpr", "IntegerLiteral", "DeclRefExpr"):
            return []
        return [self.expr(n)]

    def mapslot(self, n):
        """m[key] of a map, where a missing key stands for zero"""
        n = strip(n)
        if n.get("kind") == "CXXOperatorCallExpr" and strip(kids(n)[0]).get("referencedDecl", {}).get("name") == "operator[]" and ismap(qt(strip(kids(n)[1]))):
            return self.par(kids(n)[1]), self.expr(kids(n)[2])

    def cls_of(self, t):
        b = re.sub(r"<.*", "", t.replace("const ", "").replace("class ", "").replace("struct ", "")).split("::")[-1].strip(" &*")
        return b if b in self.u.cls else None

    def assign(self, l, r, decl=None):
        lt = qt(strip(l))
        ls = strip(l)
        if self.ismalloc(r) and ls.get("kind") == "ArraySubscriptExpr":
            return self.touch(ls, "allocated")           # a row of a multi-dimensional array
        rs = strip(r)
        if rs.get("kind") == "BinaryOperator" and rs.get("opcode") == "=":
            return self.exprstmt(rs) + self.assign(l, kids(rs)[0], decl)
        c = self.cls_of(lt) if not isptr(lt) else None
        if decl is not None and self.u.fn.get(decl["id"], "").startswith("assign"):
            x = rs
            while x.get("kind") == "CXXConstructExpr" and x.get("elidable") and len(kids(x)) == 1:
                x = strip(kids(x)[0])
            if x.get("kind") in ("CXXTemporaryObjectExpr", "CXXConstructExpr") and self.cls_of(qt(x)) and "dtor" in dict(self.u.cls[self.cls_of(qt(x))][1]):
                w = self.fresh("temp")
                return ["%s = %s" % (w, self.expr(r)), "%s.%s(%s)" % (self.lv(l), self.u.fn[decl["id"]], w), "%s.dtor()" % w]
            return ["%s.%s(%s)" % (self.lv(l), self.u.fn[decl["id"]], self.expr(r))]
        if ls.get("kind") == "MemberExpr" and ls["name"] in ("first", "second") and ispair(qt(strip(kids(ls)[0]))):
            b = kids(ls)[0]
            x = self.expr(b)
            return self.assigntext(b, "(%s, %s[1])" % (self.expr(r), x) if ls["name"] == "first" else "(%s[0], %s)" % (x, self.expr(r)))
        v = self.expr(r)
        if self.ismalloc(r):
            v = self.rowptr(r, lt) or v
            me = self.lv(l)
            v = self.withrows(v, lambda b: self.u and b.get("kind") in ("DeclRefExpr", "MemberExpr") and self.expr(b) == me, qt(l))
        if c and decl is not None:
            v = "copy.copy(%s)" % v
        if "std::vector" in lt and not isptr(lt) and rs.get("kind") in ("DeclRefExpr", "MemberExpr", "CXXOperatorCallExpr", "ArraySubscriptExpr"):
            v = "list(%s)" % v
        if ls.get("kind") == "UnaryOperator" and ls.get("opcode") == "*" and strip(kids(ls)[0]).get("kind") == "CXXThisExpr":
            raise Unsupported("*this assigned")
        return ["%s = %s" % (self.lv(l), v)]

    def assigntext(self, l, v):
        return ["%s = %s" % (self.lv(l), v)]

    def rowptr(self, r, t):
        """memory seen as rows of a fixed length"""
        m = re.search(r"\(\*\)((\[\d+\])+)$", t)
        r = strip(r)
        if not m or r.get("kind") != "CallExpr":
            return None
        rows = re.findall(r"\d+", m.group(1))
        cnt, extra = self.nbytes(kids(r)[1], list(rows))
        return None if cnt is None or extra and extra != rows else "__carray__(%s)" % ", ".join([cnt] + rows)

    def lv(self, n):
        return self.expr(n)

    def nbytes(self, n, drop=()):
        """element count of a byte-size expression"""
        n = strip(n)
        def factors(x):
            x = strip(x)
            if x.get("kind") == "BinaryOperator" and x.get("opcode") == "*":
                return factors(kids(x)[0]) + factors(kids(x)[1])
            return [x]
        fs = factors(n)
        rest, rows, seen = [], [], False
        for f in fs:
            if f.get("kind") == "UnaryExprOrTypeTraitExpr":
                seen = True
                t = f.get("argType", {}).get("desugaredQualType") or f.get("argType", {}).get("qualType", "")
                if not t and kids(f):
                    t = qt(kids(f)[0])
                rows = re.findall(r"\[(\d+)\]", t)
            elif f.get("kind") == "IntegerLiteral" and f.get("value") in drop:
                drop.remove(f["value"])
            else:
                rest.append(self.expr(f))
        if drop and not rows:
            return None, []
        if not seen:
            return None, []
        return " * ".join("(%s)" % r if re.search(r"[+-]", r) else r for r in rest) or "1", rows

    def offset(self, x):
        """pointer + number: the number as index prefix, and the pointer"""
        x = strip(x)
        if x.get("kind") == "UnaryOperator" and x.get("opcode") == "&":
            y = strip(kids(x)[0])
            if y.get("kind") == "ArraySubscriptExpr":
                return "(%s) + " % self.expr(kids(y)[1]), strip(kids(y)[0])
        if x.get("kind") == "BinaryOperator" and x.get("opcode") == "+":
            l, r = [strip(z) for z in kids(x)]
            if not isptr(qt(l)) and "[" not in qt(l):
                l, r = r, l
            o, b = self.offset(l)
            return o + "(%s) + " % self.expr(r), b
        return "", x

    def release(self, a):
        """free: a whole array ends its life; a row of one is only checked to exist"""
        a = strip(a)
        if a.get("kind") == "DeclRefExpr" and a["referencedDecl"]["id"] in self.alias:
            a = self.alias[a["referencedDecl"]["id"]]
        if a.get("kind") == "ArraySubscriptExpr":
            return self.touch(a, "released")
        if a.get("kind") in ("DeclRefExpr", "MemberExpr"):
            x = self.expr(a)
            c = self.cls_of(qt(a)) if qt(a).rstrip().endswith("*") and qt(a).count("*") == 1 else None
            if c and "dtor" in dict(self.u.cls[c][1]):
                return ["if %s is not None:" % x, "    %s.dtor()" % x, "__free__(%s)" % x]
            return ["__free__(%s)" % x]
        return []

    def rowsites(self, what):
        """how often each array has rows allocated (released) in this function"""
        out = {}
        for x in walk(self.u.body(self.n)):
            if what == "allocated" and x.get("kind") == "BinaryOperator" and x.get("opcode") == "=" and self.ismalloc(kids(x)[1]):
                a = strip(kids(x)[0])
            elif what == "released" and x.get("kind") == "CallExpr" and strip(kids(x)[0]).get("referencedDecl", {}).get("name") in ("free", "_mm_free"):
                a = strip(kids(x)[1])
            elif what == "released" and x.get("kind") == "CXXDeleteExpr":
                a = strip(kids(x)[0])
            else:
                continue
            d = 0
            while a.get("kind") == "ArraySubscriptExpr":
                a, d = strip(kids(a)[0]), d + 1
            if d and a.get("kind") in ("DeclRefExpr", "MemberExpr"):
                k = (d, a.get("name") or a["referencedDecl"]["id"])
                out[k] = out.get(k, 0) + 1
        return out

    def touch(self, a, what=None):
        ix = []
        while a.get("kind") == "ArraySubscriptExpr":
            ix.insert(0, self.expr(kids(a)[1]))
            a = strip(kids(a)[0])
        if a.get("kind") not in ("DeclRefExpr", "MemberExpr"):
            return []
        # a conditional release (or allocation) elsewhere, or a second site, may account for the other rows
        if what and self.rowsites(what).get((len(ix), a.get("name") or a["referencedDecl"]["id"])) == 1:
            return ["__rows__(%s, %r, %s)" % (self.expr(a), what, ", ".join(ix))]
        return ["__touch__(%s, %s)" % (self.expr(a), ", ".join(ix))]

    def callstmt(self, d, args, n):
        nm = d["name"]
        pyn = self.u.fn.get(d["id"])
        if pyn:
            return self.outcall(pyn, d, [self.expr(a) for a in args], args)
        if nm in ("free", "_mm_free"):
            return self.release(args[0])
        if nm in DROP or nm.startswith("__builtin_unreachable"):
            return []
        if nm in ("memset", "memcpy", "memmove"):
            dst = strip(args[0])
            cnt, rows = self.nbytes(args[2])
            if cnt is None:
                raise Unsupported(nm)
            v = self.fresh("mk")
            off, dst = self.offset(dst)
            t = self.expr(dst)
            if nm == "memset":
                val = strip(args[1])
                if val.get("kind") == "UnaryOperator" and val.get("opcode") == "-":
                    e = "-1" if strip(kids(val)[0]).get("value") == "1" else "__unk__('memset')"
                else:
                    e = "0" if val.get("value") == "0" else "__unk__('memset')"
                if qt(dst).count("*") > 1 and e != "0":
                    e = "__unk__('memset')"
                src = lambda ix: e
            else:
                soff, sb = self.offset(args[1])
                s = self.expr(sb)
                src = lambda ix: "%s[%s]" % (s, soff + ix)
            out, ix, pad = [], [], ""
            for b in [cnt] + rows:
                w = self.fresh("mk")
                out.append(pad + "for %s in range(%s):" % (w, b))
                ix.append(w)
                pad += "    "
            out.append(pad + "%s[%s] = %s" % (t, off + ", ".join(ix), src(", ".join(ix))))
            return out
        if nm in ("fill", "fill_n", "sort", "stable_sort", "swap", "copy", "copy_n", "reverse", "iota"):
            return self.stdalg(nm, args)
        if nm in ("exit", "abort", "__assert_fail"):
            return ["raise SystemExit()"]
        return None

    def whole(self, a, b):
        """container of a begin/end pair"""
        a, b = strip(a), strip(b)
        def beg(x, w):
            x = strip(x)
            while x.get("kind") == "CXXConstructExpr" and len(kids(x)) == 1:
                x = strip(kids(x)[0])
            if x.get("kind") == "CXXMemberCallExpr":
                m = kids(x)[0]
                if m.get("name") in (w, "c" + w):
                    return kids(m)[0]
        p, q = beg(a, "begin"), beg(b, "end")
        if p is not None and q is not None and self.expr(p) == self.expr(q):
            return self.expr(p)

    def ptrrange(self, a, b):
        """pointer range p, p+n"""
        a, b = strip(a), strip(b)
        if b.get("kind") == "BinaryOperator" and b.get("opcode") == "+":
            x, y = kids(b)
            if self.expr(x) == self.expr(a):
                return self.expr(a), self.expr(y)

    def stdalg(self, nm, args):
        if nm == "sort" and len(args) == 2:
            w = self.whole(*args)
            if w:
                return ["%s.sort()" % w]
        if nm in ("sort", "stable_sort") and len(args) == 3:
            c = self.expr(args[2])
            w = self.whole(*args[:2])
            if w:
                return ["__csort__(%s, %s)" % (w, c)]
            w = self.ptrrange(*args[:2])
            if w:
                return ["__csort__(%s, %s)" % (w[0], c)]
        if nm == "reverse":
            w = self.whole(*args)
            if w:
                return ["%s.reverse()" % w]
        if nm == "swap":
            a, b = self.lv(args[0]), self.lv(args[1])
            return ["%s, %s = %s, %s" % (a, b, b, a)]
        if nm == "fill":
            w = self.whole(args[0], args[1])
            v = self.fresh("mk")
            if w:
                return ["for %s in range(len(%s)):" % (v, w), "    %s[%s] = %s" % (w, v, self.expr(args[2]))]
            w = self.ptrrange(args[0], args[1])
            if w:
                return ["for %s in range(%s):" % (v, w[1]), "    %s[%s] = %s" % (w[0], v, self.expr(args[2]))]
        if nm == "fill_n":
            v = self.fresh("mk")
            return ["for %s in range(%s):" % (v, self.expr(args[1])), "    %s[%s] = %s" % (self.expr(args[0]), v, self.expr(args[2]))]
        if nm == "copy":
            w = self.ptrrange(args[0], args[1])
            v = self.fresh("mk")
            if w:
                return ["for %s in range(%s):" % (v, w[1]), "    %s[%s] = %s[%s]" % (self.expr(args[2]), v, w[0], v)]
        if nm == "copy_n":
            v = self.fresh("mk")
            return ["for %s in range(%s):" % (v, self.expr(args[1])), "    %s[%s] = %s[%s]" % (self.expr(args[2]), v, self.expr(args[0]), v)]
        if nm == "iota":
            v = self.fresh("mk")
            w = self.whole(args[0], args[1])
            if w:
                return ["for %s in range(len(%s)):" % (v, w), "    %s[%s] = %s + %s" % (w, v, self.expr(args[2]), v)]
            w = self.ptrrange(args[0], args[1])
            if w:
                return ["for %s in range(%s):" % (v, w[1]), "    %s[%s] = %s + %s" % (w[0], v, self.expr(args[2]), v)]
        raise Unsupported("std::" + nm)

    def node_of(self, did):
        for nm, n in self.u.funcs:
            if n["id"] == did or self.u.fn.get(did) == nm:
                return n
        if did in self.u.meth:
            c, m = self.u.meth[did]
            return dict(self.u.cls[c][1]).get(m)

    def outcall(self, pyn, d, pyargs, args, recv=None):
        n = self.node_of(d["id"])
        call = "%s(%s)" % ((recv + "." if recv else "") + pyn, ", ".join(pyargs))
        if n is None:
            return [call]
        outs = []
        b = self.u.body(n)
        for k, p in enumerate(self.u.params(n)):
            t = qt(p)
            if t.rstrip().endswith("&") and not t.startswith("const") and (isint(t) or t.replace("&", "").strip() in ("double", "float") or isptr(t.rstrip("& "))) and b is not None and self.assigned(b, p["id"]):
                outs.append(k)
        pre, post = [], []
        for k, p in enumerate(self.u.params(n)):
            if k < len(args) and isptr(qt(p)) and not qt(p).startswith("const") and b is not None and strip(args[k]).get("kind") == "ArraySubscriptExpr" and self.writes(b, p["id"]):
                r = self.fresh("row")
                pre.append("%s = __row__(%s)" % (r, pyargs[k]))
                post.append("%s = %s" % (pyargs[k], r))
                pyargs = list(pyargs)
                pyargs[k] = r
        call = "%s(%s)" % ((recv + "." if recv else "") + pyn, ", ".join(pyargs))
        if outs:
            if not qt(n).startswith("void"):
                raise Unsupported("out parameter")
            r = self.fresh("ret")
            return pre + ["%s = %s" % (r, call)] + ["%s = %s[%d]" % (self.lv(args[k]), r, i) for i, k in enumerate(outs)] + post
        return pre + [call] + post

    def writes(self, body, did):
        for x in walk(body):
            if x.get("kind") in ("BinaryOperator", "CompoundAssignOperator") and (x.get("opcode") == "=" or x["kind"] == "CompoundAssignOperator"):
                t = strip(kids(x)[0])
                while t.get("kind") in ("ArraySubscriptExpr",) or (t.get("kind") == "UnaryOperator" and t.get("opcode") == "*"):
                    t = strip(kids(t)[0])
                if t.get("kind") == "DeclRefExpr" and t["referencedDecl"]["id"] == did:
                    return True
            if x.get("kind") == "CallExpr" and any(strip(a).get("kind") == "DeclRefExpr" and strip(a)["referencedDecl"]["id"] == did for a in kids(x)[1:]):
                return True
        return False

    # ------------------------------------------------------------ expressions
    def cond(self, n):
        t = qt(strip(n))
        return self.expr(n)

    def expr(self, n):
        k = n.get("kind")
        if k in CASTS:
            if n.get("castKind") == "FloatingToIntegral" or (n.get("castKind") in ("NoOp",) and False):
                return "int(%s)" % self.expr(kids(n)[0])
            if n.get("castKind") == "FloatingToBoolean":
                return "(%s != 0)" % self.expr(kids(n)[0])
            if n.get("castKind") == "IntegralToBoolean":
                return "(%s != 0)" % self.expr(kids(n)[0])
            if n.get("castKind") == "PointerToBoolean":
                return "(%s is not None)" % self.expr(kids(n)[0])
            if n.get("castKind") == "NullToPointer":
                return "None"
            if k == "ParenExpr":
                x = self.expr(kids(n)[0])
                return x if re.match(r"^[\w.]+$", x) else "(%s)" % x
            if n.get("castKind") == "ToVoid":
                return "None"
            return self.expr(kids(n)[0])
        f = getattr(self, "e_" + k, None)
        if f is None:
            raise Unsupported("expression " + str(k))
        return f(n)

    def e_IntegerLiteral(self, n):
        return n["value"]

    def e_FloatingLiteral(self, n):
        return repr(float(n["value"]))

    def e_CXXBoolLiteralExpr(self, n):
        return "True" if n["value"] else "False"

    def e_StringLiteral(self, n):
        return repr(n["value"][1:-1]) if n["value"].startswith('"') else repr(n["value"])

    def e_CharacterLiteral(self, n):
        return repr(chr(n["value"]))

    def e_CXXNullPtrLiteralExpr(self, n):
        return "None"

    def e_GNUNullExpr(self, n):
        return "None"

    def e_CXXThisExpr(self, n):
        return "self"

    def e_CXXDefaultArgExpr(self, n):
        return "__default__"

    def e_CXXDefaultInitExpr(self, n):
        raise Unsupported("default initialiser")

    def e_DeclRefExpr(self, n):
        d = n["referencedDecl"]
        if d["kind"] == "EnumConstantDecl":
            raise Unsupported("enum")
        if d["kind"] in ("FunctionDecl", "CXXMethodDecl"):
            r = self.u.fn.get(d["id"])
            if r:
                return r
            raise Unsupported("function " + d["name"])
        if d["id"] in self.alias:
            return self.expr(self.alias[d["id"]])
        if d["id"] in self.u.consts:
            return self.expr([x for x in kids(self.u.consts[d["id"]]) if isexpr(x)][-1])
        if d["id"] not in self.names and d["kind"] == "VarDecl" and self.n is not None:
            return self.name(d)
        return self.name(d)

    def e_MemberExpr(self, n):
        if n["name"] in ("first", "second") and ispair(qt(strip(kids(n)[0]))):
            return "%s[%d]" % (self.par(kids(n)[0]), 0 if n["name"] == "first" else 1)
        return "%s.%s" % (self.expr(kids(n)[0]), n["name"])

    def subs(self, n):
        n = strip(n)
        if n.get("kind") == "DeclRefExpr" and n["referencedDecl"]["id"] in self.alias:
            return self.subs(self.alias[n["referencedDecl"]["id"]])
        if n.get("kind") == "ArraySubscriptExpr":
            b, i = kids(n)
            base, ix = self.subs(b)
            return base, ix + [self.expr(i)]
        if n.get("kind") == "UnaryOperator" and n.get("opcode") == "*" and strip(kids(n)[0]).get("kind") != "CXXThisExpr":
            x = strip(kids(n)[0])
            if x.get("kind") == "BinaryOperator" and x.get("opcode") == "+" and isptr(qt(x)):
                base, ix = self.subs(kids(x)[0])
                return base, ix + [self.expr(kids(x)[1])]
            if qt(x).count("*") == 1 and self.cls_of(qt(x)) and "std::" not in qt(x):
                return "__deref__(%s)" % self.expr(x), []
            base, ix = self.subs(x)
            return base, ix + ["0"]
        if n.get("kind") == "CXXOperatorCallExpr" and strip(kids(n)[0]).get("referencedDecl", {}).get("name") == "operator[]" and strip(kids(n)[0])["referencedDecl"]["id"] not in self.u.fn:
            return "%s[%s]" % (self.expr(kids(n)[1]), self.expr(kids(n)[2])), []
        return self.expr(n), []

    def e_ArraySubscriptExpr(self, n):
        base, ix = self.subs(n)
        return "%s[%s]" % (base, ", ".join(ix)) if ix else base

    def par(self, n):
        x = self.expr(n)
        return x if re.match(r"^[\w.]+(\[[^\[\]()]*\])?$", x) or (x.startswith("(") and x.endswith(")") and n.get("kind") == "ParenExpr") else "(%s)" % x

    def e_BinaryOperator(self, n):
        l, r = kids(n)
        op = n["opcode"]
        if op in ("&&", "||"):
            return "%s %s %s" % (self.par(l), "and" if op == "&&" else "or", self.par(r))
        if op in ("==", "!=") and (isptr(qt(l)) or isptr(qt(r))):
            a, b = self.expr(l), self.expr(r)
            if a == "None":
                a, b = b, a
            return "%s %s %s" % (a, "is" if op == "==" else "is not", b)
        if op == "/" and isint(qt(n)):
            ls = strip(l)
            if ls.get("kind") == "UnaryOperator" and ls.get("opcode") == "-":
                return "-(%s // %s)" % (self.par(kids(ls)[0]), self.par(r))
            return "%s // %s" % (self.par(l), self.par(r))
        if op == "%":
            return "__cmod__(%s, %s)" % (self.expr(l), self.expr(r))
        if op in ("=", ","):
            raise Unsupported("nested " + op)
        if op in ("+", "-") and isptr(qt(n)):
            raise Unsupported("pointer arithmetic")
        return "%s %s %s" % (self.par(l), op, self.par(r))

    def e_UnaryOperator(self, n):
        op = n["opcode"]
        x = kids(n)[0]
        if op == "-":
            return "-%s" % self.par(x)
        if op == "+":
            return self.expr(x)
        if op == "!":
            return "not %s" % self.par(x)
        if op == "*":
            if strip(x).get("kind") == "CXXThisExpr":
                return "self"
            return self.e_ArraySubscriptExpr(n)
        if op == "&":
            y = strip(x)
            if y.get("kind") in ("DeclRefExpr", "MemberExpr"):
                return self.expr(y)
            if y.get("kind") == "ArraySubscriptExpr" and strip(kids(y)[1]).get("value") == "0":
                return self.expr(kids(y)[0])
            raise Unsupported("address of")
        if op == "__extension__":
            return self.expr(x)
        raise Unsupported("operator " + op)

    def e_ConditionalOperator(self, n):
        c, a, b = kids(n)
        return "(%s if %s else %s)" % (self.expr(a), self.cond(c), self.expr(b))

    def e_CXXNewExpr(self, n):
        if n.get("isArray"):
            xs = kids(n)
            t = qt(n)
            if "vector" in t:
                return "[[] for _ in range(%s)]" % self.expr(xs[0])
            return "__carray__(%s)" % self.expr(xs[0])
        xs = kids(n)
        if xs:
            return self.expr(xs[0])
        raise Unsupported("new")

    def e_UnaryExprOrTypeTraitExpr(self, n):
        raise Unsupported("sizeof")

    def e_InitListExpr(self, n):
        return "[%s]" % ", ".join(self.expr(x) for x in kids(n))

    def e_CXXStdInitializerListExpr(self, n):
        return self.expr(kids(n)[0])

    def e_ImplicitValueInitExpr(self, n):
        return "0"

    def e_CXXScalarValueInitExpr(self, n):
        return "0"

    def e_CXXTemporaryObjectExpr(self, n):
        return self.e_CXXConstructExpr(n)

    def e_CXXConstructExpr(self, n):
        t = qt(n)
        xs = kids(n)
        c = self.cls_of(t)
        if c:
            if len(xs) == 1 and self.cls_of(qt(xs[0])) == c:
                ct = (n.get("ctorType") or {}).get("qualType", "")
                src = strip(xs[0])
                if n.get("elidable") or src.get("kind") in ("CXXTemporaryObjectExpr", "CXXConstructExpr", "CallExpr", "CXXMemberCallExpr") and not qt(xs[0]).endswith("&"):
                    return self.expr(xs[0])
                which = "ctor_move" if "&&" in ct else "ctor_copy"
                ms = dict(self.u.cls[c][1])
                if which not in ms and "ctor_copy" in ms:
                    which = "ctor_copy"
                if which in ms:
                    return "%s().%s(%s)" % (c, which, self.expr(xs[0]))
                return "copy.copy(%s)" % self.expr(xs[0])
            args = [self.expr(x) for x in xs]
            while args and args[-1] == "__default__":
                args.pop()
            ms = dict(self.u.cls[c][1])
            nm = "ctor__%d" % len(xs)
            cands = [m for m, x in self.u.cls[c][1] if m.startswith(nm) and x["kind"] == "CXXConstructorDecl"]
            ct = (n.get("ctorType") or {}).get("qualType", "")
            for m, x in self.u.cls[c][1]:
                if x["kind"] == "CXXConstructorDecl" and x["type"]["qualType"] == ct:
                    nm = m
                    break
            if nm not in ms:
                if not xs:
                    return "%s()" % c
                raise Unsupported("constructor of " + c)
            return "%s().%s(%s)" % (c, nm, ", ".join(args))
        if "vector" in t:
            a = [x for x in xs if x.get("kind") != "CXXDefaultArgExpr"]
            if not a:
                return "[]"
            if len(a) == 1:
                if "vector" in qt(a[0]):
                    return "list(%s)" % self.expr(a[0])
                if "initializer_list" in qt(a[0]):
                    return self.expr(a[0])
                return "__cvector__(%s)" % self.expr(a[0])
            if len(a) == 2:
                w = self.whole(a[0], a[1])
                if w:
                    return "list(%s)" % w
                if isint(qt(a[0])):
                    return "__cvector__(%s, %s)" % (self.expr(a[0]), self.expr(a[1]))
            raise Unsupported("vector constructor")
        if "pair" in t or "tuple" in t:
            if len(xs) == 1 and "pair" in qt(xs[0]):
                return self.expr(xs[0])
            return "(%s)" % ", ".join(self.expr(x) for x in xs)
        if len(xs) == 1:
            return self.expr(xs[0])
        if not xs and ("map" in t or "set" in t):
            return "{}" if "map" in t else "set()"
        raise Unsupported("construct " + t[:40])

    def e_CallExpr(self, n):
        f = strip(kids(n)[0])
        args = kids(n)[1:]
        if f.get("kind") != "DeclRefExpr":
            raise Unsupported("indirect call")
        d = f["referencedDecl"]
        nm = d["name"]
        py = [a for a in args if a.get("kind") != "CXXDefaultArgExpr"]
        pyn = self.u.fn.get(d["id"])
        if pyn and d["id"] in self.u.meth:                 # static member
            return "%s.%s(%s)" % (self.u.meth[d["id"]][0], pyn, ", ".join(self.expr(a) for a in py))
        if pyn:
            return "%s(%s)" % (pyn, ", ".join(self.expr(a) for a in py))
        if nm in ("malloc", "_mm_malloc"):
            cnt, rows = self.nbytes(args[0])
            return "__carray__(%s)" % ", ".join([cnt] + rows) if cnt is not None else "__unk__('malloc')"
        if nm == "calloc":
            return "np.zeros(%s)" % self.expr(args[0])
        if nm == "pow":
            return "%s ** %s" % (self.par(args[0]), self.par(args[1]))
        if nm in MATH:
            return "%s(%s)" % (MATH[nm], ", ".join(self.expr(a) for a in args))
        if nm in ("min", "max", "fmin", "fmax"):
            if len(args) == 2:
                return "%s(%s, %s)" % (nm.replace("f", ""), self.expr(args[0]), self.expr(args[1]))
        if nm in ("move", "forward"):
            return self.expr(args[0])
        if nm == "make_pair":
            return "(%s, %s)" % (self.expr(args[0]), self.expr(args[1]))
        if nm == "count":
            w = self.whole(args[0], args[1])
            if w:
                return "__ccount__(%s, %s)" % (w, self.expr(args[2]))
            w = self.ptrrange(args[0], args[1])
            if w:
                return "list(%s[:%s]).count(%s)" % (w[0], w[1], self.expr(args[2]))
        if nm in ("max_element", "min_element"):
            w = self.whole(args[0], args[1])
            if w:
                return "[%s(%s)]" % (nm[:3], w)
        if nm == "accumulate":
            w = self.whole(args[0], args[1])
            if w:
                return "(%s + sum(%s))" % (self.expr(args[2]), w)
        if nm == "to_string":
            return "str(%s)" % self.expr(args[0])
        raise Unsupported("call of " + nm)

    def e_LambdaExpr(self, n):
        rec = kids(n)[0]
        op = [m for m in walk(rec) if m.get("kind") == "CXXMethodDecl" and m.get("name") == "operator()" and self.u.body(m) is not None]
        if len(op) != 1:
            raise Unsupported("lambda")
        nm = self.fresh("lam")
        f = Fn(self.u, op[0], False)
        f.names, f.alias, f.used = self.names, self.alias, self.used
        self.pre += f.define(nm)
        self.tmp += 100
        return nm

    def e_CXXMemberCallExpr(self, n):
        r = self.membercall(n, False)
        return r[0]

    def membercall(self, n, stmt):
        m = kids(n)[0]
        args = [a for a in kids(n)[1:] if a.get("kind") != "CXXDefaultArgExpr"]
        if m.get("kind") != "MemberExpr":
            raise Unsupported("member call")
        base = kids(m)[0]
        did = m.get("referencedMemberDecl")
        pyn = self.u.fn.get(did)
        recv = self.expr(base)
        pa = [self.expr(a) for a in args]
        if pyn:
            if pyn == "dtor":
                return []
            if stmt:
                return self.outcall(pyn, {"id": did}, pa, args, recv)
            return ["%s.%s(%s)" % (recv, pyn, ", ".join(pa))]
        nm = m.get("name")
        t = qt(base)
        S = {"push_back": "append", "emplace_back": "append"}
        if nm in S:
            a = strip(args[0])
            v = pa[0]
            if "vector" in qt(a) and a.get("kind") in ("DeclRefExpr", "MemberExpr"):
                v = "list(%s)" % v
            if nm == "emplace_back" and len(pa) > 1:
                v = "(%s)" % ", ".join(pa)
            return ["%s.append(%s)" % (recv, v)]
        if nm == "size":
            return ["len(%s)" % recv]
        if nm == "at":
            return ["%s[%s]" % (recv, pa[0])]
        if nm == "data":
            return [recv]
        if nm == "empty":
            return ["len(%s) == 0" % recv]
        if nm in ("back", "front"):
            return ["%s[%s]" % (recv, "-1" if nm == "back" else "0")]
        if nm == "pop_back":
            return ["%s.pop()" % recv]
        if nm in ("clear",):
            return ["%s.clear()" % recv]
        if nm in ("reserve", "shrink_to_fit"):
            return []
        if nm == "resize":
            return ["%s = __cresize__(%s, %s)" % (recv, recv, ", ".join(pa))]
        if nm == "assign" and len(pa) == 2:
            return ["%s = __cvector__(%s, %s)" % (recv, pa[0], pa[1])]
        if nm == "count":
            return ["(1 if %s in %s else 0)" % (pa[0], recv)]
        if nm == "insert" and len(pa) == 1:
            a = strip(args[0])
            return ["%s[%s[0]] = %s[1]" % (recv, pa[0], pa[0])] if "map" in t else ["%s.add(%s)" % (recv, pa[0])]
        raise Unsupported("method " + str(nm))

    def e_CXXOperatorCallExpr(self, n):
        f = strip(kids(n)[0])
        d = f.get("referencedDecl", {})
        op = d.get("name", "")
        a = kids(n)[1:]
        pyn = self.u.fn.get(d.get("id"))
        if pyn and not pyn.startswith("implicit"):
            if d["kind"] == "CXXMethodDecl":
                return "%s.%s(%s)" % (self.par(a[0]), pyn, ", ".join(self.expr(x) for x in a[1:]))
            return "%s(%s)" % (pyn, ", ".join(self.expr(x) for x in a))
        if op == "operator[]":
            return "%s[%s]" % (self.par(a[0]), self.expr(a[1]))
        if op == "operator()" and strip(a[0]).get("kind") == "DeclRefExpr" and "lambda" in qt(strip(a[0])):
            return "%s(%s)" % (self.expr(a[0]), ", ".join(self.expr(x) for x in a[1:]))
        if op in ("operator+", "operator-", "operator*", "operator/", "operator==", "operator!=", "operator<", "operator>") and len(a) == 2:
            return "%s %s %s" % (self.par(a[0]), op[8:], self.par(a[1]))
        if op == "operator*" and len(a) == 1:
            x = self.expr(a[0])
            if x.startswith("[") and x.endswith(")]"):
                return x[1:-1]
        raise Unsupported("operator call " + op)


# -------------------------------------------------------------------- driver
_cache = {}


def stub(unit, src):
    heads, inst = UNITS[unit]
    s = "#include <string.h>\n#include <cstring>\n#include <algorithm>\n#include <numeric>\n"
    s += "".join('#include "%s"\n' % os.path.join(src, h) for h in heads)
    s += "".join("template %s;\n" % i for i in inst)
    return s


def parse(unit, src):
    with tempfile.TemporaryDirectory(prefix="cxx-verif-") as d:
        p = os.path.join(d, unit + ".cc")
        with open(p, "w") as f:
            f.write(stub(unit, src))
        r = subprocess.run(["clang++", "-std=c++17", "-w", "-fsyntax-only", "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=matersdk", p],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
        if r.returncode:
            raise Unsupported("clang: " + r.stderr.decode("utf8", "replace")[:500])
        s = r.stdout.decode("utf8", "replace")
    dec, i, objs = json.JSONDecoder(), 0, []
    while True:
        while i < len(s) and s[i] in " \r\n\t":
            i += 1
        if i >= len(s):
            break
        o, i = dec.raw_decode(s, i)
        objs.append(o)
    return objs


def module_source(unit, repo, overlay=None):
    src = os.path.join(repo, "source")
    edits = tuple(sorted((p, t) for p, t in (overlay or {}).items() if p.startswith(src + os.sep)))
    key = (unit, src, hash(edits))
    if key not in _cache:
        if edits:
            import shutil
            with tempfile.TemporaryDirectory(prefix="cxx-verif-") as d:
                copy = os.path.join(d, "source")
                shutil.copytree(src, copy, ignore=lambda p, ns: [n for n in ns if n in ("build", "ext", "tests", "test", "gen", ".git")])
                for p, t in edits:
                    with open(os.path.join(copy, os.path.relpath(p, src)), "w") as f:
                        f.write(t)
                u = Unit(parse(unit, copy), None)
        else:
            u = Unit(parse(unit, src), None)
        _cache[key] = (u.emit(), u)
    return _cache[key]


if __name__ == "__main__":
    import sys
    t, u = module_source(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "/repo")
    print(t)
    for f in u.failed:
        print("# failed", f)
