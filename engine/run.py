"""Entry points: analyse a function / method / class of a program tree."""
import ast
import sys
from .terms import *
from .repo import Program
from .pyint import Interp, State, Frame, FALL, RET, EXC, ctl_cond, restrict_bool
from . import lib

sys.setrecursionlimit(20000)


class Result(object):
    pass


class Session(object):
    def __init__(self, prog, opaque=()):
        self.prog = prog
        self.I = Interp(prog, opaque)
        m = prog.module(list(prog.mods)[0]) if prog.mods else None

    def state(self, modname):
        m = self.prog.module(modname)
        if m is None:
            raise LookupError("module %s not found" % modname)
        return State({}, {}, EMPTYSEQ, Frame(m, None, None, ()))

    def resolve(self, qual):
        """'pkg.mod:Class.method' / 'pkg.mod:func' -> ref term"""
        modname, path = qual.split(":")
        m = self.prog.module(modname)
        if m is None:
            raise LookupError("module %s not found" % modname)
        parts_ = path.split(".")
        r = self.prog.resolve(modname, parts_[0])
        if r is None:
            raise LookupError("%s not found" % qual)
        t = self.I.ref(r)
        return t, parts_[1:]

    def sym_self(self, st, clsqual, fields=None, name="self"):
        f = {"__base__": sym(name, clsqual)}
        f.update(fields or {})
        return self.I.alloc(st, mk("obj", clsqual, tuple(sorted(f.items()))))


def finish(I, st, val):
    r = Result()
    excc = ctl_cond(st.ctl, (EXC,))
    val = I.deref(val, st)
    if excc is not FALSE and excc is not TRUE:
        val = restrict_bool(val, excc, False)
    r.value = functional(val)
    r.raises = excc
    r.exc = I.deref(st.ret, st) if excc is not FALSE else None
    r.trace = functional(I.deref(st.trace, st))
    r.files = files_of(r.trace)
    r.state = st
    return r


def files_of(trace):
    """list of (path, mode, content) terms for every file opened"""
    out = []
    for x in subterms(trace):
        if x.op == "ev" and x.args[0] == "open":
            p, m, h = x.args[1]
            if h.op == "handle":
                out.append((p, m, h.args[2]))
    return out
