"""Obligations: repository code and reference program normalised side by side."""
import copy
import json
import os
import sys
import time
import traceback

from .terms import *
from . import terms as TT
from .repo import Program
from .run import Session, finish
from .pyint import FALL, EXC, ctl_cond
from .compare import compare, show, DEF, diff, definite, loosen

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOTS = {"matersdk": REPO, "specs": VERIF}
BUDGET = 600


class Missing(Exception):
    pass


class Moved(Exception):
    """a helper used as a cut point no longer exists under that name"""


_names = []


def defined(nm):
    """is a function/class of that (dotted) name defined anywhere in the tree?"""
    import re
    if not _names:
        acc = set()
        for root, ds, fs in os.walk(os.path.join(REPO, "matersdk")):
            for f in fs:
                if f.endswith(".py"):
                    with open(os.path.join(root, f), encoding="utf-8", errors="replace") as h:
                        acc.update(re.findall(r"^\s*(?:def|class)\s+(\w+)", h.read(), re.M))
        for root, ds, fs in os.walk(os.path.join(REPO, "source")):
            ds[:] = [d for d in ds if d not in ("build", "ext", "tests", "test")]
            for f in fs:
                if f.endswith((".h", ".cc")):
                    with open(os.path.join(root, f), encoding="utf-8", errors="replace") as h:
                        acc.update(re.findall(r"(\w+)\s*(?:<[^<>]*>)?\s*[({]", h.read()))
        _names.append(acc)
    return all(re.sub(r"__\d.*", "", p) in _names[0] or p in ("ctor_copy", "ctor_move", "assign_copy", "assign_move") or p.startswith("ctor__") for p in nm.split("."))


def S_(name, cls=None):
    return sym(name, cls)


def lit(x):
    """python literal -> term; '$X' is a symbolic input"""
    if isinstance(x, T):
        return x
    if isinstance(x, str):
        if x.startswith("$") and x.endswith("!"):
            return sym(x[1:-1], "!")
        if x.startswith("$") and x.endswith("+"):
            return sym(x[1:-1], "+")
        if x.startswith("$") and x.endswith("#"):      # a positive whole number
            return sym(x[1:-1], "#")
        return sym(x[1:]) if x.startswith("$") else string(x)
    if x is None:
        return NONE
    if x is True:
        return TRUE
    if x is False:
        return FALSE
    if isinstance(x, (int, float)):
        return num(x)
    if isinstance(x, list):
        return mk("list", *[lit(e) for e in x])
    if isinstance(x, tuple):
        return mk("tuple", *[lit(e) for e in x])
    if isinstance(x, dict):
        return mk("dict", *[(lit(k), lit(v)) for k, v in x.items()])
    raise TypeError(x)


class TimeUp(BaseException):
    """the analysis of one obligation exceeded its budget: undecided, never an alarm"""


class limit(object):
    def __init__(self, secs):
        self.secs = secs

    def __enter__(self):
        import threading, ctypes
        tid = threading.get_ident()
        self.live = True

        def fire():
            if self.live:
                ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(tid), ctypes.py_object(TimeUp))
        self.timer = threading.Timer(self.secs, fire)
        self.timer.daemon = True
        threading.stack_size(1 << 20)
        self.timer.start()
        threading.stack_size(512 << 20)
        return self

    def __exit__(self, *a):
        self.live = False
        self.timer.cancel()
        return False


class Run(object):
    """one side of an obligation"""

    def __init__(self, qual, args=(), kwargs=None, ctor=None, ctor_kw=None, self_=None, opaque=(), want="value", pick=None, static=False, base=True, methods=(), asserts=False):
        self.qual, self.args, self.kwargs = qual, args, kwargs or {}
        self.ctor, self.ctor_kw, self.self_ = ctor, ctor_kw or {}, self_
        self.opaque, self.want, self.base = opaque, want, base
        self.pick = pick
        self.asserts = asserts

    def resolve(self, S):
        mod, path = self.qual.split(":")
        parts_ = path.split(".")
        if S.prog.module(mod) is None:
            raise Missing("module %s" % mod)
        r = S.prog.resolve(mod, parts_[0])
        if r is None:
            raise Missing(self.qual)
        return S.I.ref(r), parts_[1:]

    def go(self, prog):
        for x in self.opaque:
            nm = x if isinstance(x, str) else x[0]
            if not defined(nm.split(":")[-1]):
                raise Moved(nm)
        S = Session(prog, [x if isinstance(x, str) else (x[0], lit(x[1])) for x in self.opaque])
        I = S.I
        I.asserting = self.asserts
        mod = self.qual.split(":")[0]
        ref, rest = self.resolve(S)
        st = S.state(mod)
        A = lambda xs: [I.alloc(st, t) if t.op in ("list", "dict") else t for t in (lit(x) for x in xs)]
        K = lambda d: dict(zip(d.keys(), A(d.values())))
        if rest:
            cls = ref.args[1] if ref.op == "ref" else None
            got = I.method(cls, rest[0])
            if got is None:
                raise Missing(self.qual)
            if self.ctor is not None:
                o = I.call(ref, A(self.ctor), K(self.ctor_kw), st)
                f = I.attr(o, rest[0], st)
            elif self.self_ is not None:
                fields = {k: (lit(v)) for k, v in self.self_.items()}
                fields = {k: (I.alloc(st, v) if v.op in ("list", "dict") else v) for k, v in fields.items()}
                if self.base:
                    o = S.sym_self(st, cls, fields)
                else:
                    o = I.alloc(st, mk("obj", cls, tuple(sorted(fields.items()))))
                f = I.attr(o, rest[0], st)
            else:
                o = None
                f = I.attr(ref, rest[0], st)
            if f.op == "bound" or f.op == "ref":
                v = I.call(f, A(self.args), K(self.kwargs), st)
            else:
                v = f            # property already evaluated
        else:
            o = None
            v = I.call(ref, A(self.args), K(self.kwargs), st)
            if ref.op == "ref" and ref.args[0] == "class":
                o = v
        if any(m.startswith("cxx.") for m in prog.missing):
            raise Moved("C++ sources: " + getattr(prog, "cxxerror", ""))
        if getattr(I, "tainted", None):
            raise Moved("construct outside the translated C++ subset: " + I.tainted)
        r = finish(I, st, v)
        r.self_ = I.deref(o, st) if o is not None else None
        r.visited = set(I.visited)
        r.interp = I
        return r


def select(r, want):
    if want == "value":
        return r.value
    if want.startswith("value."):
        f = r.value
        for p in want.split(".")[1:]:
            f = pickfield(f, p)
        return f
    if want == "raises":
        return r.raises
    if want == "exc":
        return r.exc if r.exc is not None else NONE
    if want.startswith("self."):
        f = r.self_
        for p in want.split(".")[1:]:
            f = pickfield(f, p)
        return f
    if want == "self":
        return r.self_
    raise KeyError(want)


def pickfield(t, name):
    if t.op == "ite":
        return ite(t.args[0], pickfield(t.args[1], name), pickfield(t.args[2], name))
    if name.isdigit():
        return index(t, num(int(name)))
    if t.op == "obj":
        d = dict(t.args[1])
        if name in d:
            return d[name]
        if "__base__" in d:
            return app("attr", d["__base__"], name)
        return mk("attrerror", name)
    return app("attr", t, name)


# ------------------------------------------------------------- effects

READ = ("r", "rt", "rb")


def units(tr):
    if tr is EMPTYSEQ:
        return []
    if tr.op == "list":
        return list(tr.args)
    if tr.op == "cat":
        out = []
        for p in tr.args:
            out += units(p)
        return out
    if tr.op == "ite":
        return [tr]
    return [tr]


def ispure(t):
    """no write-like event below"""
    for x in subterms(t):
        if x.op == "ev":
            k = x.args[0]
            if k == "close" or k == "pool":
                continue
            if k == "open" and x.args[1][1].op == "str" and x.args[1][1].args[0] in READ:
                continue
            if k in ("super.__init__",):
                continue
            return False
        if x.op == "evc":
            return False
    return True


def evkey(t):
    ks = set()
    for x in subterms(t):
        if x.op == "ev":
            k = x.args[0]
            if k in ("close", "pool"):
                continue
            if k == "open" and x.args[1][1].op == "str" and x.args[1][1].args[0] in READ:
                continue
            if k == "open":
                ks.add("write " + show(x.args[1][0]))
            elif k in ("setattr", "setitem"):
                ks.add("%s %s" % (k, show(x.args[1])))
            else:
                ks.add("%s" % (show(x.args[1][0]) if len(x.args) > 1 and isinstance(x.args[1], tuple) and x.args[1] else k))
    return " & ".join(sorted(ks))


def strip_handles(t):
    """open events -> (path, mode, final content)"""
    m = {}
    return t


def _wr(t, memo):
    """rewrite events: open(write) keeps path, mode and final content only; reads and closes vanish"""
    if t.dg in memo:
        return memo[t.dg]
    r = t
    if t.op == "list":
        out = []
        for e in t.args:
            if e.op == "ev":
                k = e.args[0]
                if k in ("close", "pool"):
                    continue
                if k == "open":
                    p, mo, h = e.args[1]
                    if mo.op == "str" and mo.args[0] in READ:
                        continue
                    out.append(mk("ev", "write", (p, mo, h.args[2] if h.op == "handle" else h), ()))
                    continue
            out.append(e)
        r = mk("list", *out)
    elif t.op == "cat":
        r = cat(*[_wr(x, memo) for x in t.args])
    elif t.op == "ite":
        r = ite(t.args[0], _wr(t.args[1], memo), _wr(t.args[2], memo))
    elif t.op == "fm":
        body = t.args[1]
        v = fv()
        b = subst(body, {mk("bv", body.height + 1): v})
        r = fm(t.args[0], v, _wr(b, memo))
    memo[t.dg] = r
    return r


def effects(r, ignore=()):
    """{target key: sequence term}; order kept only within one target"""
    tr = _wr(r.trace, {})
    out = {}
    for u in units(tr):
        if u.op == "ev" and u.args[0] in ignore:
            continue
        if u.op in ("ite", "fm") and not any(x.op in ("ev", "evc") for x in subterms(u)):
            continue
        k = evkey(u)
        out.setdefault(k, []).append(u)
    return {k: mk("list", *fresh(v)) for k, v in out.items()}


def fresh(us):
    """removing a file if it is there and then appending to it is writing it"""
    out = []
    for u in us:
        p = out[-1] if out else None
        if p is not None and u.op == "ev" and u.args[0] == "write" and u.args[1][1] is string("a") and p.op == "ite" and p.args[2] is EMPTYSEQ and p.args[1].op == "list" and len(p.args[1].args) == 1:
            e, c = p.args[1].args[0], p.args[0]
            if e.op == "ev" and e.args[0] in ("os.remove", "os.unlink") and e.args[1][0] is u.args[1][0] and c.op == "boolcall" and c.args[0] in ("os.path.exists", "os.path.isfile") and u.args[1][0] in c.args:
                out[-1] = mk("ev", "write", (u.args[1][0], string("w"), u.args[1][2]), u.args[2])
                continue
        out.append(u)
    return out


# ------------------------------------------------------------- obligations

class Ob(object):
    def __init__(self, name, impl, spec, want=("value",), note="", known=None, post=None, ignore=(), weak=(), frames=None):
        self.frames = frames            # every sliced array has this many rows
        self.name, self.impl, self.spec = name, impl, spec
        self.want = (want,) if isinstance(want, str) else tuple(want)
        self.note, self.known, self.post, self.ignore, self.weak = note, known, post, ignore, weak

    def decide(self, prog):
        """-> list of (aspect, status, detail)"""
        res = self.judge(prog)
        if any(r[1] == "undecided" for r in res) and not any(r[1] == "differ" for r in res):
            # what could not be decided for all sizes may differ at a small one
            kept = self.ri, self.rs, self.visited
            for what, o in self.instances():
                try:
                    small = [("%s at %s" % (a, what), s, d) for a, s, d in o.judge(prog) if s == "differ" and a != "memory"]
                except (Missing, Moved, RecursionError):
                    continue
                if small:
                    return small
            self.ri, self.rs, self.visited = kept
        return res

    def judge(self, prog):
        ri = self.impl.go(prog)
        rs = self.spec.go(prog)
        self.visited = set(v for v in ri.visited if not v.startswith("specs."))
        self.ri, self.rs = ri, rs
        out = []
        ri.interp.rowfaults()
        faults = {k: v for k, v in ri.interp.faults.items() if not k[0].startswith("specs.")}
        if faults:
            out.append(("memory", "differ", [(v, "%s.%s" % k[:2], "", DEF) for k, v in sorted(faults.items())]))
        for w in self.want:
            if w == "effects":
                ea, eb = effects(ri, self.ignore), effects(rs, self.ignore)
                if self.frames is not None:
                    ea, eb = ({k: clamp(t, self.frames) for k, t in e.items()} for e in (ea, eb))
                out += self.cmp_effects(ea, eb)
                continue
            if w == "result":
                # value and explicit exceptions together
                a, b = result_term(ri), result_term(rs)
            else:
                a, b = select(ri, self.impl.pick if self.impl.pick and w == "value" else w), select(rs, self.spec.pick if self.spec.pick and w == "value" else w)
            if self.post:
                a, b = self.post(a), self.post(b)
            s, ds = compare(a, b)
            out.append((w, s, detail(ds)))
        return out

    def instances(self):
        """the same obligation with its symbolic counts written out as small numbers"""
        names = []
        for x in list(self.impl.args) + list(self.spec.args):
            if isinstance(x, str) and x.startswith("$") and x.endswith("#") and x not in names:
                names.append(x)
        if not names:
            return
        for sizes in ((2, 3), (3, 2)):
            m = {x: sizes[k % 2] for k, x in enumerate(names)}
            o = copy.copy(self)
            o.impl, o.spec = copy.copy(self.impl), copy.copy(self.spec)
            for r in (o.impl, o.spec):
                r.args = [m.get(x, x) if isinstance(x, str) else x for x in r.args]
            yield ", ".join("%s=%d" % (k[1:-1], v) for k, v in m.items()), o

    def cmp_effects(self, ea, eb):
        out = []
        rest_a = {k: v for k, v in ea.items() if k not in eb}
        rest_b = {k: v for k, v in eb.items() if k not in ea}
        for k in sorted(set(ea) & set(eb)):
            s, ds = compare(ea[k], eb[k])
            out.append(("effects " + k[:200], s, detail(ds)))
        ka, kb = sorted(rest_a), sorted(rest_b)
        if len(ka) == len(kb):
            for x, y in zip(ka, kb):
                s, ds = compare(rest_a[x], rest_b[y])
                out.append(("effects " + y[:200], s if s != "equal" else "undecided", detail(ds)))
        else:
            for x in ka:
                unkn = any(has_unk(t) for t in [rest_a[x]]) or all(u.op == "ev" and u.args[0] == "do" for u in subterms(rest_a[x]) if u.op in ("ev", "evc"))
                out.append(("effects " + x[:200], "undecided" if unkn or kb else "differ", [("extra effect", show(rest_a[x])[:400], "", DEF)]))
            for y in kb:
                out.append(("effects " + y[:200], "differ" if not ka else "undecided", [("missing effect", "", show(rest_b[y])[:400], DEF)]))
        return out


def clamp(t, n):
    """a slice that ends at or beyond the last of n rows ends at the last row"""
    memo = {}
    beyond = lambda b: b.op == "num" and b.args[0] >= n

    def go(x):
        if x.op in ("num", "str", "bool", "none", "bv", "ref"):
            return x
        r = memo.get(x.dg)
        if r is None:
            if x.op == "sub" and beyond(x.args[2]):
                r = subseq(go(x.args[0]), go(x.args[1]), NONE)
            elif x.op == "slice" and (x.args[0] is NONE or x.args[0] is num(0)) and (x.args[1] is NONE or beyond(x.args[1])):
                r = mk("slice", NONE, NONE, *x.args[2:])
            elif x.op == "slice" and beyond(x.args[1]):
                r = mk("slice", go(x.args[0]), NONE, *x.args[2:])
            else:
                r = rebuild(x, go)
            memo[x.dg] = r
        return r
    return go(t)


def result_term(r):
    if r.raises is FALSE:
        return r.value
    return ite(r.raises, mk("tuple", string("raise"), r.exc if r.exc is not None else NONE), mk("tuple", string("return"), r.value))


def detail(ds):
    return [(d.why, show(d.a)[:4000], show(d.b)[:4000], d.kind) for d in ds[:8]]


class Rule(object):
    """obligation decided by a rule over the extracted program, no reference program"""

    def __init__(self, name, fn, note="", known=None):
        self.name, self.fn, self.note, self.known = name, fn, note, known
        self.visited = set()

    def decide(self, prog):
        self.visited = set()
        return self.fn(prog, self)


def load_known():
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                out.append(json.loads(line))
    return out


def run_property(pid, title, obs, tier, floors, level="other", explanation="", rule=""):
    t0 = time.time()
    prog = Program(dict(ROOTS))
    known = [k for k in load_known() if k.get("property") == pid]
    viol, undec, eqs, kf = [], [], [], []
    visited = set()
    total = 0
    for ob in obs:
        total += 1
        try:
            left = BUDGET - (time.time() - t0)
            if left <= 1:
                raise TimeUp()
            with limit(min(left, 150)):
                res = ob.decide(prog)
        except TimeUp:
            res = [("analysis", "undecided", [("analysis budget used up", "", "", "undecided")])]
        except Missing as e:
            res = [("anchor", "differ", [("public entry point is gone", str(e), "", DEF)])]
        except Moved as e:
            res = [("analysis", "undecided", [("cut point %s is gone" % e, "", "", "undecided")])]
        except RecursionError:
            res = [("analysis", "undecided", [("recursion", "", "", "undecided")])]
        except Exception as e:
            res = [("analysis", "undecided", [("analyser: %s" % traceback.format_exc(limit=-3), "", "", "undecided")])]
        visited |= getattr(ob, "visited", set())
        for asp, s, det in res:
            key = ob.name + "/" + asp
            if s == "equal":
                eqs.append(key)
            elif s == "undecided":
                undec.append({"obligation": key, "why": [d[0] for d in det][:4]})
            else:
                hit = None
                for k in known:
                    if k["obligation"] == ob.name and (k.get("aspect") in (None, asp)):
                        if k.get("match") and any(k["match"] in (d[0] + " | " + d[1]) for d in det) and \
                                all(any(mm in (d[0] + " | " + d[1]) for mm in k.get("all", [k["match"]])) for d in det if d[3] == DEF):
                            hit = k
                if hit:
                    kf.append((key, hit))
                else:
                    viol.append((key, det, getattr(ob, "note", "")))
    for key, k in kf:
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, key, k["what"]))
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
        "coverage": {
            "explanation": explanation or rule,
            "rule": rule,
            "obligations": len(eqs) + len(undec) + len(viol) + len(kf),
            "discharged": len(eqs),
            "violated": len(viol),
            "undecided": undec,
            "known_findings": [k for k, _ in kf],
            "functions_analysed": sorted(visited),
            "n_functions": len(visited),
            "decided_obligations": eqs,
        },
        "wall_s": round(time.time() - t0, 2),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rep = os.path.join(VERIF, "evidence", pid + ".replay.json")
    if os.path.exists(rep):
        os.remove(rep)
    if viol:
        with open(rep, "w") as f:
            json.dump({"property": pid, "violations": [
                {"obligation": k, "note": n, "differences": [{"why": d[0], "code": d[1], "required": d[2], "kind": d[3]} for d in det]} for k, det, n in viol]}, f, indent=1)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, det, n in viol:
        print("violated obligation: %s" % k)
        if n:
            print("   requirement: %s" % n)
        for d in det[:4]:
            print("   %s\n      code:     %s\n      required: %s" % (d[0], d[1][:300], d[2][:300]))
    print("%s: %d obligations discharged, %d violated, %d undecided, %d known findings; %d functions analysed in %.1fs" % (
        pid, len(eqs), len(viol), len(undec), len(kf), len(visited), time.time() - t0))
    for u in undec[:40]:
        print("  undecided: %s: %s" % (u["obligation"], "; ".join(u["why"])[:300]))
    if viol:
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    return 0
