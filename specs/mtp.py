"""Moment tensor descriptors of the C++ core: levels, radial functions."""
import numpy as np
from cxx.mtp import MtpMCoeffPair, MtpMCoeffPairCombs, MtpSwitchFunc1, MtpSwitchFunc2, ChebyshevPoly, MtpQ
from cxx.mtpr import SwitchFunction, RB_Chebyshev, RQ_Chebyshev


# ---- switching functions
def scaled(r, rcut, rs):
    s = MtpSwitchFunc1().ctor__2(rcut, rs)
    return s.get_result__1(r), s.get_deriv2r__0()


def r_scaled(r, rcut, rs):
    return (2 * r - (rcut + rs)) / (rcut - rs), 2 / (rcut - rs)


def switch2(r, rcut, rs):
    s = MtpSwitchFunc2().ctor__2(rcut, rs)
    return s.get_result__1(r), s.get_deriv2r__1(r)


def r_switch2(r, rcut, rs):
    u = (r - rs) / (rcut - rs)
    if rs <= r < rcut:
        return 1 - 10 * u ** 3 + 15 * u ** 4 - 6 * u ** 5, (-30 * u ** 2 + 60 * u ** 3 - 30 * u ** 4) / (rcut - rs)
    return 0, 0


def switchr(r, rcut, rs):
    s = SwitchFunction().ctor__2(rcut, rs)
    return s.val__1(r), s.der2r__1(r)


# ---- Chebyshev polynomials on the scaled interval
def cheb(n, r, rcut, rs):
    c = ChebyshevPoly().ctor__3(n, rcut, rs)
    c.build__1(r)
    return c.size__0(), c.get_result__0(), c.get_deriv2xi__0(), c.get_deriv2r__0()


def nought(n):
    t = __carray__(n)
    for k in range(n):
        t[k] = 0
    return t


def series(n, x, f, t, d, e):
    for k in range(n):
        if k == 0:
            t[k] = 1
            d[k] = 0
            e[k] = 0
        elif k == 1:
            t[k] = x
            d[k] = 1
            e[k] = f
        else:
            t[k] = 2 * x * t[k - 1] - t[k - 2]
            d[k] = 2 * t[k - 1] + 2 * x * d[k - 1] - d[k - 2]
            e[k] = d[k] * f


def r_cheb(n, r, rcut, rs):
    t, d, e = nought(n), nought(n), nought(n)
    if rs <= r < rcut:
        series(n, (2 * r - (rcut + rs)) / (rcut - rs), 2 / (rcut - rs), t, d, e)
    else:
        for k in range(n):
            t[k] = 0
        for k in range(n):
            d[k] = 0
        for k in range(n):
            e[k] = 0
    return n, t, d, e


def cheb6(r, rcut, rs):
    c = ChebyshevPoly().ctor__3(6, rcut, rs)
    c.build__1(r)
    v, d, e = c.get_result__0(), c.get_deriv2xi__0(), c.get_deriv2r__0()
    return [v[k] for k in range(6)], [d[k] for k in range(6)], [e[k] for k in range(6)]


def closed(x):
    return [1, x, 2 * x ** 2 - 1, 4 * x ** 3 - 3 * x, 8 * x ** 4 - 8 * x ** 2 + 1, 16 * x ** 5 - 20 * x ** 3 + 5 * x]


def closed_d(x):
    return [0, 1, 4 * x, 12 * x ** 2 - 3, 32 * x ** 3 - 16 * x, 80 * x ** 4 - 60 * x ** 2 + 5]


def r_cheb6(r, rcut, rs):
    x = (2 * r - (rcut + rs)) / (rcut - rs)
    f = 2 / (rcut - rs)
    if rs <= r < rcut:
        return closed(x), closed_d(x), [d * f for d in closed_d(x)]
    return [0] * 6, [0] * 6, [0] * 6


def again6(r0, r, rcut, rs):
    c = ChebyshevPoly().ctor__3(6, rcut, rs)
    c.build__1(r0)
    c.build__1(r)
    v, d, e = c.get_result__0(), c.get_deriv2xi__0(), c.get_deriv2r__0()
    return [v[k] for k in range(6)], [d[k] for k in range(6)], [e[k] for k in range(6)]


def r_again6(r0, r, rcut, rs):
    return r_cheb6(r, rcut, rs)


def q6(r, rcut, rs):
    q = MtpQ().ctor__3(6, rcut, rs)
    q.build__1(r)
    v, e = q.get_result__0(), q.get_deriv2r__0()
    return q.size__0(), [v[k] for k in range(6)], [e[k] for k in range(6)]


def r_q6(r, rcut, rs):
    w, dw = r_switch2(r, rcut, rs)
    x = (2 * r - (rcut + rs)) / (rcut - rs)
    f = 2 / (rcut - rs)
    if rs <= r < rcut:
        t, d = closed(x), closed_d(x)
        return 6, [w * t[k] for k in range(6)], [d[k] * f * w + t[k] * dw for k in range(6)]
    return 6, [0] * 6, [0] * 6


def q(n, r, rcut, rs):
    o = MtpQ().ctor__3(n, rcut, rs)
    o.build__1(r)
    return o.size__0(), o.get_result__0(), o.get_deriv2r__0()


def r_q(n, r, rcut, rs):
    s = MtpSwitchFunc2().ctor__2(rcut, rs)
    w, dw = s.get_result__1(r), s.get_deriv2r__1(r)
    c = ChebyshevPoly().ctor__3(n, rcut, rs)
    c.build__1(r)
    t, d = c.get_result__0(), c.get_deriv2r__0()
    return n, [t[k] * w for k in range(n)], [d[k] * w + t[k] * dw for k in range(n)]


# ---- the second implementation of the radial functions (defined on [rmin, rmax] only)
def rb(n, r, rcut, rs):
    c = RB_Chebyshev().ctor__3(n, rcut, rs)
    c.build__1(r)
    return c.size__0(), c.rmax__0(), c.rmin__0(), c.vals__0(), c.ders2uu__0(), c.ders2r__0()


def r_rb(n, r, rcut, rs):
    t, d, e = nought(n), nought(n), nought(n)
    series(n, (2 * r - (rcut + rs)) / (rcut - rs), 2 / (rcut - rs), t, d, e)
    return n, rcut, rs, t, d, e


def rb6(r, rcut, rs):
    c = RB_Chebyshev().ctor__3(6, rcut, rs)
    c.build__1(r)
    v, d, e = c.vals__0(), c.ders2uu__0(), c.ders2r__0()
    return [v[k] for k in range(6)], [d[k] for k in range(6)], [e[k] for k in range(6)]


def r_rb6(r, rcut, rs):
    x = (2 * r - (rcut + rs)) / (rcut - rs)
    f = 2 / (rcut - rs)
    return closed(x), closed_d(x), [d * f for d in closed_d(x)]


def rq6(r, rcut, rs):
    q = RQ_Chebyshev().ctor__3(6, rcut, rs)
    q.build__1(r)
    v, e = q.vals__0(), q.ders2r__0()
    return q.size__0(), q.rmax__0(), q.rmin__0(), [v[k] for k in range(6)], [e[k] for k in range(6)]


def r_rq6(r, rcut, rs):
    w, dw = r_switch2(r, rcut, rs)
    x = (2 * r - (rcut + rs)) / (rcut - rs)
    f = 2 / (rcut - rs)
    t, d = closed(x), closed_d(x)
    return 6, rcut, rs, [w * t[k] for k in range(6)], [d[k] * f * w + t[k] * dw for k in range(6)]


# ---- levels and contractible products
def level(mu, nu):
    p = MtpMCoeffPair().ctor__2(mu, nu)
    c = p.coeff_pair__0()
    q = MtpMCoeffPair().ctor__1((mu, nu))
    z = MtpMCoeffPair().ctor_copy(p)
    d = MtpMCoeffPair().ctor__0()
    return p.level__0(), c[0], c[1], q.level__0(), z.level__0(), z.coeff_pair__0()[0], z.coeff_pair__0()[1], d.level__0()


def r_level(mu, nu):
    l = 2 + 4 * mu + nu
    return l, mu, nu, l, l, mu, nu, 0


def schemes(lev, mu0, nu0):
    return MtpMCoeffPairCombs.get_all_schemes4lev__3(lev, mu0, nu0)


def contracted(combs):
    return MtpMCoeffPairCombs.get_contracted_combs__1(combs)


def r_contracted(combs):
    out = []
    for c in combs:
        if len(c) == 0:
            continue
        first = c[0].coeff_pair__0()[1]
        if len(c) == 1:
            if first == 0:
                out.append(c)
            continue
        rest = 0
        for j in range(1, len(c)):
            rest += c[j].coeff_pair__0()[1]
        times = {}
        for p in c:
            times[p.coeff_pair__0()[1]] = times.get(p.coeff_pair__0()[1], 0) + 1
        paired = True
        for v, t in times.items():
            if v != 0 and t % 2 != 0:
                paired = False
        if rest == first or paired:
            out.append(c)
    return out


def build(top):
    o = MtpMCoeffPairCombs().ctor__1(top)
    return o.max_level__0(), o.coeff_pair_combs__0(), o.size__0()


def r_build(top):
    out = []
    for l in range(top + 1):
        for c in MtpMCoeffPairCombs.get_contracted_combs__1(MtpMCoeffPairCombs.get_all_schemes4lev__3(l, 0, 0)):
            out.append(c)
    return top, out, len(out)


def r_schemes(lev, mu0, nu0):
    out = []
    if lev == 0:
        return [[]]
    for mu in range(lev):
        for nu in range(lev):
            own = 2 + 4 * mu + nu
            start = 2 + 4 * mu0 + nu0
            if (own > start or own == start and mu >= mu0) and own <= lev:          # every product once
                for rest in MtpMCoeffPairCombs.get_all_schemes4lev__3(lev - own, mu, nu):
                    one = list(rest)
                    one.append(MtpMCoeffPair().ctor__2(mu, nu))
                    __csort__(one, lambda p, q: p.coeff_pair__0()[1] > q.coeff_pair__0()[1])
                    out.append(one)
    return out
