"""Obligations decided by a rule over the extracted program."""
from .terms import *
from .harness import Rule
from .compare import show, DEF


def atleast(t, k):
    """True: t >= k for every input; False: some machine makes it smaller; None: not known"""
    if is_num(t):
        return t.args[0] >= k
    if t.op == "none":
        return True
    if t.op == "ite":
        c = t.args[0]
        r = [atleast(x, k) for x in t.args[1:]]
        if c.op == "lt":
            known = (sub(num(-1), c.args[0]), c.args[0])      # what is >= 0 in either branch (integers)
            for i in (0, 1):
                e = sub(sub(t.args[1 + i], num(k)), known[i])
                if is_num(e) and e.args[0] >= 0:
                    r[i] = True
        return True if all(x is True for x in r) else (False if False in r and not any(x is None for x in r) else None)
    if t.op == "max":
        r = [atleast(x, k) for x in t.args]
        return True if True in r else (False if all(x is False for x in r) else None)
    if t.op == "min":
        r = [atleast(x, k) for x in t.args]
        return False if False in r else (True if all(r) else None)
    if iscount(t):
        return k <= 1
    if t.op == "poly":
        c0 = 0
        for c, m in t.args:
            if not m:
                c0 = c
            elif len(m) == 1 and iscount(m[0][0]) and m[0][1] == 1 and c == 1:
                pass
            else:
                return None
        return 1 + c0 >= k
    if t.op == "floordiv" and is_num(t.args[1]) and t.args[1].args[0] > 0:
        return atleast(t.args[0], k * t.args[1].args[0])
    if t.op == "int":
        return atleast(t.args[0], k)
    return None


def iscount(t):
    """the number of CPUs: any integer from 1"""
    return t.op == "call" and t.args[0] in ("os.cpu_count", "multiprocessing.cpu_count") and not t.args[1]


def pools(name, run):
    """every process pool a function creates has at least one worker, on every machine"""
    def fn(prog, rule):
        r = run.go(prog)
        rule.visited = r.visited
        if not r.interp.pools:
            return [("workers", "equal", [])]
        bad = [p for p in r.interp.pools if atleast(p, 1) is False]
        if bad:
            return [("workers", "differ", [("the number of worker processes can be less than 1", show(p), "at least 1 for every number of CPUs", DEF) for p in bad])]
        if any(atleast(p, 1) is None for p in r.interp.pools):
            return [("workers", "undecided", [("number of workers", "", "", "undecided")])]
        return [("workers", "equal", [])]
    return Rule(name, fn)
