"""Program loader and static name resolution for the analysed trees."""
import ast
import os
import warnings
warnings.simplefilter("ignore", SyntaxWarning)


class Module(object):
    def __init__(self, name, path, src, is_pkg):
        self.name, self.path, self.src, self.is_pkg = name, path, src, is_pkg
        self.tree = ast.parse(src)
        self.binds = {}
        self.star = []
        self._scan(self.tree.body)
        self.env = None

    def _scan(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.binds[s.name] = ("func", s)
            elif isinstance(s, ast.ClassDef):
                self.binds[s.name] = ("class", s)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self.binds[a.asname] = ("module", a.name)
                    else:
                        self.binds[a.name.split(".")[0]] = ("module", a.name.split(".")[0])
            elif isinstance(s, ast.ImportFrom):
                base = self.absname(s)
                for a in s.names:
                    if a.name == "*":
                        self.star.append(base)
                    else:
                        self.binds[a.asname or a.name] = ("from", base, a.name)
            elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                for t in ts:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name):
                            self.binds[n.id] = ("var", s)
            elif isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for f in ("body", "orelse", "finalbody"):
                    self._scan(getattr(s, f, []) or [])
                for h in getattr(s, "handlers", []) or []:
                    self._scan(h.body)
                if isinstance(s, ast.For):
                    for n in ast.walk(s.target):
                        if isinstance(n, ast.Name):
                            self.binds[n.id] = ("var", s)

    def absname(self, s):
        if s.level == 0:
            return s.module or ""
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        parts = parts[: len(parts) - (s.level - 1)]
        if s.module:
            parts = parts + s.module.split(".")
        return ".".join(parts)


class Program(object):
    def __init__(self, roots, overlay=None):
        """roots: {package prefix: directory holding that package}"""
        self.roots = roots
        self.mods = {}
        self.missing = set()
        self.overlay = overlay or {}

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        if name in self.missing:
            return None
        top = name.split(".")[0]
        if top == "cxx":
            return self.cxx(name) if name.count(".") == 1 else None
        if top not in self.roots:
            return None
        base = os.path.join(self.roots[top], *name.split("."))
        for p, pk in ((os.path.join(base, "__init__.py"), True), (base + ".py", False)):
            if p in self.overlay or os.path.isfile(p):
                src = self.overlay.get(p)
                if src is None:
                    with open(p, encoding="utf8") as f:
                        src = f.read()
                try:
                    m = Module(name, p, src, pk)
                except SyntaxError:
                    self.missing.add(name)
                    return None
                self.mods[name] = m
                return m
        if os.path.isdir(base):
            m = Module(name, base, "", True)
            self.mods[name] = m
            return m
        self.missing.add(name)
        return None

    def cxx(self, name):
        from . import cxx
        try:
            src, unit = cxx.module_source(name.split(".")[1], self.roots["matersdk"], self.overlay)
        except (cxx.Unsupported, OSError, ValueError, KeyError) as e:
            self.missing.add(name)
            self.cxxerror = str(e)
            return None
        m = Module(name, name, src, False)
        m.unit = unit
        self.mods[name] = m
        return m

    def texts(self):
        if getattr(self, "_texts", None) is None:
            self._texts = []
            for top, d in self.roots.items():
                if top == "specs":
                    continue
                for root, ds, fs in os.walk(os.path.join(d, top)):
                    ds[:] = [x for x in ds if x != "__pycache__"]
                    for f in sorted(fs):
                        if f.endswith(".py"):
                            with open(os.path.join(root, f), encoding="utf8", errors="replace") as h:
                                self._texts.append(h.read())
        return self._texts

    def params_of(self, meth):
        """parameter names shared by every method of that name in the tree, or None"""
        c = self.__dict__.setdefault("_params", {})
        if meth not in c:
            sigs = set()
            for t in self.texts():
                if "def %s(" % meth in t:
                    try:
                        tree = ast.parse(t)
                    except SyntaxError:
                        continue
                    for cl in ast.walk(tree):
                        if isinstance(cl, ast.ClassDef):
                            for f in cl.body:
                                if isinstance(f, ast.FunctionDef) and f.name == meth:
                                    sigs.add(tuple(a.arg for a in f.args.args if a.arg not in ("self", "cls")))
            c[meth] = sigs.pop() if len(sigs) == 1 else None
        return c[meth]

    def owns(self, name):
        return name.split(".")[0] in self.roots or name.startswith("cxx.")

    def resolve(self, modname, ident, seen=None):
        """-> ('func',mod,node)|('class',mod,node)|('module',name)|('var',mod,name)|('ext',dotted)|None"""
        seen = seen or set()
        if (modname, ident) in seen:
            return None
        seen.add((modname, ident))
        m = self.module(modname)
        if m is None:
            return None
        b = m.binds.get(ident)
        if b is None:
            for s in m.star:
                if self.owns(s):
                    r = self.resolve(s, ident, seen)
                    if r:
                        return r
            if self.module(modname + "." + ident) is not None:
                return ("module", modname + "." + ident)
            return None
        if b[0] in ("func", "class"):
            return (b[0], m, b[1])
        if b[0] == "var":
            return ("var", m, ident)
        if b[0] == "module":
            return ("module", b[1])
        if b[0] == "from":
            base, nm = b[1], b[2]
            if self.owns(base):
                r = self.resolve(base, nm, seen)
                if r:
                    return r
                if self.module(base + "." + nm) is not None:
                    return ("module", base + "." + nm)
                return ("ext", base + "." + nm)
            return ("ext", base + "." + nm)
        return None
