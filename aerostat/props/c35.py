"""C35 conical shocks."""
import mpmath
import numpy as np

from .common import *
from .c29 import cut, comps
from .c26 import nd
from .. import identity as idn

NAME = "aerokit.aero.ShockWave.conical_deflection_Mach_sigma"
STEP = "aerokit.common._ode._rkf45"
S, tol = sym("sigma"), sym("tol")
mp = mpmath.mp


def rates(phi, th, ma, gam=g):
    """Taylor-Maccoll equations for the flow angle and the Mach number along the polar angle, in degrees"""
    e = (phi - th) * DEG
    k = num(1) - (ma * sin(e)) ** num(2)
    a_ = -sin(th * DEG) * cos(e) / (sin(phi * DEG) * k)
    b_ = DEG * sin(th * DEG) * sin(e) / (sin(phi * DEG) * k) * ma * (num(1) + HALF * gm1(gam) * ma * ma)
    return a_, b_


def behind(sig, gam=g):
    th = atan(num(2) / tm.tan(sig * DEG) * ((M * sin(sig * DEG)) ** num(2) - 1) / (M * M * (gam + cos(num(2) * sig * DEG)) + 2)) * RAD
    return th, sh_m(M * sin(sig * DEG), gam) / sin((sig - th) * DEG)


def cdom():
    d = gdom(M=("1.5", 6), k=("0.2", "0.9"))
    d.define("sigma", RAD * asin(num(1) / M) + sym("k") * (num(70) - RAD * asin(num(1) / M)))
    return d


def equations(c):
    """what is integrated, from where, in which direction"""
    i = c.i
    i.peel = 2
    seen = []

    def step(ii, f, args, kw, node):
        a = dict(zip(fdef(c, f), args))
        a.update(kw)
        func, x, y, h = [a[k] for k in fdef(c, f)[:4]]
        k = len(seen)
        th, ma, ph = sym("q_th%d" % k), sym("q_ma%d" % k), sym("q_ph%d" % k)
        v = np.array([th, ma], dtype=object)
        r_ = ii.call_value(func, [ph, ii.np.new_nd(ii, v)], {}, node)
        seen.append((scal(c, x), comps(ii, y), scal(c, h), comps(ii, r_), (ph, th, ma)))
        dy = np.array([sym("dth%d" % k), sym("dma%d" % k)], dtype=object)
        return (ii.np.new_nd(ii, dy), sym("err%d" % k))
    i.opaque[STEP] = step
    v = scal(c, c.call(NAME, M, S, g, tol))
    c.pending = []
    where = c.where_of(c.get(NAME))
    c.fact("integration steps", True if seen else None, "steps of the embedded Runge-Kutta method", where=where)
    d = cdom()
    th, ma = behind(S)
    for k, (x, y, h, rr, (ph, qt, qm)) in enumerate(seen[:1]):
        c.identity("integration starts at the shock", x, S, d, where=where)
        c.identity("flow angle behind the shock", y[0], th, d, where=where, rule="oblique shock deflection")
        c.identity("Mach number behind the shock", y[1], ma, d, where=where, rule="oblique shock downstream Mach number")
        c.condition("integration goes towards the axis", lt(h, num(0)), d, where=where)
    d2 = gdom()
    for k, (x, y, h, rr, (ph, qt, qm)) in enumerate(seen):
        d2.add("q_th%d" % k, (1, 25))
        d2.add("q_e%d" % k, ("0.5", 30))
        d2.define("q_ph%d" % k, qt + sym("q_e%d" % k))
        d2.add("q_ma%d" % k, ("1.05", 4))
        ra, rb = rates(ph, qt, qm)
        c.identity("flow angle equation (step %d)" % (k + 1), rr[0], ra, d2, where=where, rule="Taylor-Maccoll", n=24)
        c.identity("Mach number equation (step %d)" % (k + 1), rr[1], rb, d2, where=where, rule="Taylor-Maccoll", n=24)


CONST = mpmath.mpf


def ode(phi, th, ma, gam):
    dg = mp.pi / 180
    e = (phi - th) * dg
    k = 1 - (ma * mpmath.sin(e)) ** 2
    a_ = -mpmath.sin(th * dg) * mpmath.cos(e) / (mpmath.sin(phi * dg) * k)
    b_ = dg * mpmath.sin(th * dg) * mpmath.sin(e) / (mpmath.sin(phi * dg) * k) * ma * (1 + (gam - 1) / 2 * ma * ma)
    return a_, b_


def rk(phi, th, ma, gam, h):
    k1 = ode(phi, th, ma, gam)
    k2 = ode(phi + h / 2, th + h / 2 * k1[0], ma + h / 2 * k1[1], gam)
    k3 = ode(phi + h / 2, th + h / 2 * k2[0], ma + h / 2 * k2[1], gam)
    k4 = ode(phi + h, th + h * k3[0], ma + h * k3[1], gam)
    return tuple(y + h / 6 * (a_ + 2 * b_ + 2 * p + q) for y, a_, b_, p, q in zip((th, ma), k1, k2, k3, k4))


_CONE = {}


def cone(sig, th, ma, gam):
    """cone angle: the ray where the flow is along the ray"""
    key = (sig, th, ma, gam)
    if key in _CONE:
        return _CONE[key]
    phi, h = sig, (th - sig) / 40
    for _ in range(400):
        t2, m2 = rk(phi, th, ma, gam, h)
        if t2 >= phi + h:
            break
        phi, th, ma = phi + h, t2, m2
    # last partial step
    lo, hi = mpmath.mpf(0), mpmath.mpf(1)
    for _ in range(50):
        mid = (lo + hi) / 2
        t2, m2 = rk(phi, th, ma, gam, h * mid)
        if t2 >= phi + h * mid:
            hi = mid
        else:
            lo = mid
    _CONE[key] = phi + h * hi
    return _CONE[key]


def result(c):
    """the returned angle is the cone angle"""
    i = c.i
    i.peel = 7 if c.thorough else 5
    where = c.where_of(c.get(NAME))
    d = cdom()
    d.add("tol", ("0.02", "0.4", "log"))
    d.direct = False
    d.funcs["cone"] = cone
    n0 = len(i.events)
    v = scal(c, c.call(NAME, M, S, g, tol))
    cut(c, d, n0)
    c.pending = []
    th, ma = behind(S)
    ref = tm.app("cone", S, th, ma, g)
    c.condition("deflection is the angle of the cone", lt(absv(v - ref), num(2) * tol), d, where=where, n=40, rule="distance to the cone of the Taylor-Maccoll flow within the tolerance")
    c.condition("cone angle between the deflection and the shock", tm.andv(lt(th, v), lt(v, S)), d, where=where, n=40, rule="flow turns further behind the shock")
    # close to the Mach wave, and close to detachment
    for lab, kk, mm in (("weak shock", ("0.005", "0.1", "log"), ("1.5", 6)), ("high Mach number", ("0.3", "0.8"), (6, 25))):
        x = gdom(M=mm, k=kk)
        x.define("sigma", RAD * asin(num(1) / M) + sym("k") * (num(70) - RAD * asin(num(1) / M)))
        x.add("tol", ("0.05", "0.4", "log"))
        x.direct = False
        x.funcs["cone"] = cone
        cut(c, x, n0)
        c.condition("%s: deflection is the angle of the cone" % lab, lt(absv(v - ref), num(2) * tol), x, where=where, n=40, rule="distance to the cone of the Taylor-Maccoll flow within the tolerance")
        c.condition("%s: cone angle between the deflection and the shock" % lab, tm.andv(lt(th, v), lt(v, S)), x, where=where, n=40, rule="flow turns further behind the shock")


def inverses(c):
    """shock angle of a cone, Mach number of a cone and a shock"""
    i = c.i
    defl = sym("defl")

    def flow(ii, f, args, kw, node):
        a = dict(zip(fdef(c, f), args))
        a.update(kw)
        if "gamma" not in a:
            a["gamma"] = num(Fraction(7, 5))
        return tm.app("CONE", scal(c, a["Mach"]), scal(c, a["sigma"]), scal(c, a["gamma"]))
    # a smooth increasing stand-in for the direct function
    model = lambda m, s, gam: s * (1 - mpmath.mpf("0.2") / m) - 3 + m * mpmath.mpf("0.7") + gam
    for nm, args, what, rng in (("conical_sigma_Mach_walldeflection", (M, defl), "sigma", (5, 80)), ("conical_Mach_walldeflection_sigma", (defl, S), "Mach", ("1.1", 12))):
        for gam in (g, None):
            c.reset()
            i = c.i
            roots(c)
            i.opaque[NAME] = flow
            d = gdom(M=("1.5", 6), sigma=(20, 70), kd=("0.3", "0.7"))
            d.funcs["CONE"] = model
            if what == "sigma":
                d.define("defl", tm.app("CONE", M, S, g if gam is not None else num(Fraction(7, 5))))
                d.require(gt(defl, num(0)))
                want = S
            else:
                d.define("defl", tm.app("CONE", M, S, g if gam is not None else num(Fraction(7, 5))))
                d.require(lt(defl, S))
                want = M
            d.root(want)
            n0 = len(i.solves)
            v = scal(c, c.call("aerokit.aero.ShockWave." + nm, *args, **({} if gam is None else {"gamma": gam})))
            c.pending = []
            where = c.where_of(c.get("aerokit.aero.ShockWave." + nm))
            for s_ in i.solves[n0:]:
                lim = RAD * asin(num(1) / M) if what == "sigma" else num(1) / sin(S * DEG)
                c.condition("%s starts on a shock" % nm, gt(s_.guess, lim), d, where=where, rule="first guess above the Mach wave")
            c.identity("%s inverts the cone angle%s" % (nm, "" if gam is not None else " (default gas)"), v, want, d, where=where, rule="solved equation is the direct function", rtol="1e-6")


def run(c):
    for s in (equations, result, inverses):
        c.section(s)
    c.assumptions.append("Attached conical shocks, integrations of at most 5 attempted steps (7 in the thorough tier)")
