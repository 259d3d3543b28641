"""C28 contents of the stability operators."""
import itertools

import numpy as np

from .common import *
from .c26 import nd, CC, sizes

EU = "aerokit.stability.Euler.Euler1D"
OSM = "aerokit.stability.OrrSommerfeld.OrrSommerfeldModel"
POI = "aerokit.stability.OrrSommerfeld.Poiseuille"
a, b = sym("xmin"), sym("xmax")
ONE, ZERO = num(1), num(0)
J = tm.lift(1j)


def vec(c, name, n):
    v = np.empty(n, dtype=object)
    v[:] = [sym("%s%d" % (name, k)) for k in range(n)]
    return v, c.i.np.new_nd(c.i, v)


def dmat(c, n, order, lo=a, hi=b):
    return nd(c, c.call(c.i.getattr(c.call(CC, n, lo, hi), "matder", None), order))


def operators(c, o):
    B, At = c.i.np.iterate(c.i, c.call(c.i.getattr(o, "get_RHS_time_matrices", None)), None)[1]
    return nd(c, B), nd(c, At)


def base(c, n, tag=""):
    r_, rr = vec(c, "rho" + tag, n)
    u_, uu = vec(c, "u" + tag, n)
    p_, pp = vec(c, "p" + tag, n)
    return (r_, u_, p_), c.call("aerokit.aero.model1D.state", rr, uu, pp, g)


def edom(n, tag="", lo="0.5", hi="0.95", wide=("lin", "0.5", "0.999")):
    """base states with free values at each point"""
    d = dom(gamma=GAM, xmin=(-2, "0.5", "lin", -30, "0.5"), xmax=("0.9", 3, "lin", "0.9", 40))
    for k in range(n):
        d.add("rho%s%d" % (tag, k), ("0.6", "1.8", "log", "0.01", "100"))
        d.add("p%s%d" % (tag, k), ("0.7", "1.6", "log", "0.01", "1e6"))
        d.add("m%s%d" % (tag, k), (lo, hi, *wide))
        d.define("u%s%d" % (tag, k), sym("m%s%d" % (tag, k)) * sqrt(g * sym("p%s%d" % (tag, k)) / sym("rho%s%d" % (tag, k))))
    return d


def euler_ref(D, q, gam):
    """interior rows of dq/dt = B q for perturbations (rho, u, p)"""
    r_, u_, p_ = q
    n = len(r_)
    rx, ux, px = (D.dot(v) for v in q)
    B = np.full((3 * n, 3 * n), ZERO, dtype=object)
    for k in range(n):
        for j in range(n):
            d = D[k, j]
            B[k, j] = -u_[k] * d
            B[k, n + j] = -r_[k] * d
            B[n + k, n + j] = -u_[k] * d
            B[n + k, 2 * n + j] = -d / r_[k]
            B[2 * n + k, 2 * n + j] = -u_[k] * d
            B[2 * n + k, n + j] = -gam * p_[k] * d
        B[k, k] = B[k, k] - ux[k]
        B[k, n + k] = B[k, n + k] - rx[k]
        B[n + k, n + k] = B[n + k, n + k] - ux[k]
        B[n + k, k] = B[n + k, k] + px[k] / (r_[k] * r_[k])
        B[2 * n + k, n + k] = B[2 * n + k, n + k] - px[k]
        B[2 * n + k, 2 * n + k] = B[2 * n + k, 2 * n + k] - gam * ux[k]
    return B


def eye(n):
    m = np.full((n, n), ZERO, dtype=object)
    for k in range(n):
        m[k, k] = ONE
    return m


def sym_rows(B, A, D, n, k):
    for v in range(3):
        A[v * n + k, :] = ZERO
        B[v * n + k, :] = ZERO
    B[k, :n] = D[k]
    B[n + k, n + k] = ONE
    B[2 * n + k, 2 * n:3 * n] = D[k]


def per_rows(B, A, D, n):
    for v in range(3):
        for k in (0, n - 1):
            A[v * n + k, :] = ZERO
            B[v * n + k, :] = ZERO
        B[v * n, v * n] = ONE
        B[v * n, v * n + n - 1] = num(-1)
        B[v * n + n - 1, v * n:v * n + n] = [p - q for p, q in zip(D[0], D[n - 1])]


def rh_rows(B, A, D, n, k, q, gam, x, gradM):
    """three linearised jump relations and the displacement of the shock as an extra unknown"""
    N = 3 * n
    B2, A2 = np.full((N + 1, N + 1), ZERO, dtype=object), np.full((N + 1, N + 1), ZERO, dtype=object)
    B2[:N, :N], A2[:N, :N] = B, A
    r1, u1, p1 = (v[k] for v in q)
    M1 = u1 / sqrt(gam * p1 / r1)
    # upstream state: the jump relations are symmetric
    r0, u0, p0 = r1 * sh_r(M1, gam), u1 / sh_r(M1, gam), p1 * sh_p(M1, gam)
    M0 = sh_m(M1, gam)
    a0 = sqrt(gam * p0 / r0)
    R, P = sh_r(M0, gam), sh_p(M0, gam)
    dR = num(4) / (gam + 1) * R * R / (M0 * M0 * M0)
    dP = num(4) * gam / (gam + 1) * M0
    # isentropic upstream state one cell further
    dx = x[1] - x[0]
    Mp = M0 + gradM * dx
    pp = p0 * pt(M0, gam) / pt(Mp, gam)
    rtp = p0 / r0 * tt(M0, gam) / tt(Mp, gam)
    rp, up = pp / rtp, Mp * sqrt(gam * rtp)
    g0 = ((rp - r0) / dx, (up - u0) / dx, (pp - p0) / dx)
    g1 = tuple(sum((D[k, j] * v[j] for j in range(n)), ZERO) for v in q)
    # k1.q1' + kx.dxs + ks.s = 0 with q0' = grad(q0).dxs and q1s' = q1' + grad(q1).dxs
    k0 = [(-R / r0, ZERO, ZERO), (-u0 / r0, num(-1), ZERO), (ZERO, ZERO, -P / p0)]
    k1 = [(ONE / r0, ZERO, ZERO), (u1 / r0, R, ZERO), (ZERO, ZERO, ONE / p0)]
    kx = [-dR * gradM, ZERO, -dP * gradM]
    ks = [dR / a0, ONE - R, dP / a0]
    for e, row in enumerate((k, N, 2 * n + k)):
        A2[row, :] = ZERO
        B2[row, :] = ZERO
        A2[row, N] = -ks[e]
        B2[row, N] = kx[e] + sum((k0[e][v] * g0[v] + k1[e][v] * g1[v] for v in range(3)), ZERO)
        for v in range(3):
            B2[row, v * n + k] = k1[e][v]
    return B2, A2


def compare(c, tag, got, ref, d, where, rule, n_=6, prev=None):
    c.fact("%s: shape" % tag, got.shape == ref.shape, "matrix shape", where=where, detail="%s / %s" % (got.shape, ref.shape))
    if got.shape != ref.shape:
        return
    for ix in np.ndindex(*ref.shape):
        if tm.lift(got[ix]) is tm.lift(ref[ix]):
            c.fact("%s %s" % (tag, list(ix)), True, "same value number", where=where)
        else:
            c.identity("%s %s" % (tag, list(ix)), got[ix], ref[ix], d, where=where, rule=rule, scale=ONE, n=n_)


def euler_one(c, n, left, right, by_set=False, flat=()):
    q, st = base(c, n)
    if flat:
        # the fields named are uniform
        q = tuple(np.array([v[0]] * n, dtype=object) if k in flat else v for k, v in zip(("rho", "u", "p"), q))
        st = c.call("aerokit.aero.model1D.state", *[c.i.np.new_nd(c.i, v.copy()) for v in q], g)
    if by_set:
        o = c.call(EU, n, a, b)
        c.call(c.i.getattr(o, "set_basestate", None), st)
    else:
        o = c.call(EU, n, xmin=a, xmax=b, basestate=st)
    dm = sym("gradM")
    spell = {"sym": "sym", "per": "per", "RH": c.i.alloc("dict", items={"type": "RH", "dM0dx": dm})}
    c.call(c.i.getattr(o, "set_BC", None), spell[left], spell[right])
    D = dmat(c, n, 1)
    x = list(nd(c, c.i.getattr(c.call(CC, n, a, b), "x", None)))
    where = c.where_of(c.get(EU + ".compute_operators"))
    B, At = operators(c, o)
    # a shock at a boundary faces a subsonic flow; any other flow may go either way
    d = edom(n) if "RH" in (left, right) else edom(n, wide=("lin", -4, 4))
    d.add("gradM", ("-0.4", "0.4", "lin", -30, 30))
    rB, rA = euler_ref(D, q, g), eye(3 * n)
    if left == "per":
        per_rows(rB, rA, D, n)
    else:
        for side, k in ((left, 0), (right, n - 1)):
            if side == "sym":
                sym_rows(rB, rA, D, n, k)
            else:
                rB, rA = rh_rows(rB, rA, D, n, k, q, g, x, dm)
    tag = "Euler n=%d %s/%s" % (n, left, right)
    if flat:
        tag += ", uniform " + ", ".join(flat)
    compare(c, tag + ": B", B, rB, d, where, "linearised Euler equations and boundary rows")
    compare(c, tag + ": At", At, rA, d, where, "time matrix: identity, boundary rows without time derivative")


def euler_sym(c):
    euler_one(c, 4, "sym", "sym")
    euler_one(c, 3, "sym", "sym", True)
    euler_one(c, 5, "sym", "sym")
    for n in sizes(c, EU.rsplit(".", 1)[0], (6, 8, 11, 20) if c.thorough else (6, 16), 40):
        euler_one(c, n, "sym", "sym")


def euler_per(c):
    euler_one(c, 4, "per", "per")
    euler_one(c, 3, "per", "per", True)
    euler_one(c, 5, "per", "per")
    for n in sizes(c, EU.rsplit(".", 1)[0], (6, 8, 11, 20) if c.thorough else (6, 16), 40):
        euler_one(c, n, "per", "per")


def euler_uniform(c):
    """base states with one or more uniform fields"""
    for k in range(1, 4):
        for flat in itertools.combinations(("rho", "u", "p"), k):
            for left, right in (("sym", "sym"), ("per", "per"), ("RH", "sym"), ("sym", "RH")) if c.thorough or k == 3 else (("sym", "sym"),):
                euler_one(c, 4, left, right, flat=flat)


def euler_rh_left(c):
    euler_one(c, 4, "RH", "sym")
    euler_one(c, 3, "RH", "sym", True)


def euler_rh_right(c):
    euler_one(c, 4, "sym", "RH")
    euler_one(c, 5, "sym", "RH", True)


AL, RE = sym("alpha"), sym("Re")


def os_ref(n, al, re, U, Ux, D1, D2, D4):
    A = D2 - np.array([[al * al if r_ == s else ZERO for s in range(n)] for r_ in range(n)], dtype=object)
    B = np.full((n, n), ZERO, dtype=object)
    for r_ in range(n):
        for s in range(n):
            v = -J * al * U[r_] * A[r_, s] + (D4[r_, s] - num(2) * al * al * D2[r_, s]) / re
            if r_ == s:
                v = v + J * al * Ux[r_] + al ** num(4) / re
            B[r_, s] = v
    for row, k in ((0, 0), (1, None), (n - 2, n - 1), (n - 1, None)):
        A[row, :] = ZERO
        B[row, :] = ZERO
    B[0, 0] = ONE
    B[1, :] = D1[0]
    B[n - 2, n - 1] = ONE
    B[n - 1, :] = D1[n - 1]
    return B, A


def odom():
    return dom(alpha=("0.3", 3, "lin", -20, 20), Re=(10, 20000, "log", "0.01", "1e9"), xmin=(-2, "0.5", "lin", -30, "0.5"), xmax=("0.9", 3, "lin", "0.9", 40))


def orr(c):
    i = c.i
    for n, AL in [(n, sym("alpha")) for n in sizes(c, OSM.rsplit(".", 1)[0], (4, 5, 6, 7, 8, 9, 12, 24) if c.thorough else (4, 5, 6, 7, 16), 40)] + [(6, sym("alpha") + J * sym("growth")), (6, sym("alpha") * sym("fac"))]:
        us, uu = vec(c, "U", n)
        d = odom()
        long_ = n == 6 and AL is sym("alpha") * sym("fac")
        cx = AL is not sym("alpha") and not long_
        d.add("fac", ("1e-5", "1e-1", "log"))
        if cx:
            d.add("growth", (-1, 1, "lin", -5, 5))
        for k in range(n):
            d.add("U%d" % k, (-1, 1))
        state = i.alloc("dict", items={"alpha": AL, "Reynolds": RE, "uprofile": lambda ii, args, kw, node: i.np.new_nd(i, us.copy())})
        o = c.call(OSM, n, a, b)
        c.call(i.getattr(o, "set_basestate", None), state)
        wall = i.alloc("dict", items={"type": "wall"})
        c.call(i.getattr(o, "set_BC", None), wall if n == 5 else "wall", "wall")
        D1, D2, D4 = (dmat(c, n, k) for k in (1, 2, 4))
        where = c.where_of(c.get(OSM + ".compute_operators"))
        B, At = operators(c, o)
        rB, rA = os_ref(n, AL, RE, us, D2.dot(us), D1, D2, D4)
        # the two boundary rows of one wall may come in any order
        for p, q in ((0, 1), (n - 2, n - 1)):
            if B.shape == rB.shape and rB[p, 0 if p == 0 else n - 1] is not B[p, 0 if p == 0 else n - 1] and B[q, 0 if p == 0 else n - 1] is ONE:
                B[[p, q]] = B[[q, p]]
        compare(c, "Orr-Sommerfeld n=%d%s: B" % (n, ", complex wave number" if cx else ", long wave" if long_ else ""), B, rB, d, where, "(D2-a2)^2/Re - i.a.U.(D2-a2) + i.a.U'' with wall rows")
        compare(c, "Orr-Sommerfeld n=%d%s: At" % (n, ", complex wave number" if cx else ", long wave" if long_ else ""), At, rA, d, where, "D2 - a2 with empty wall rows")


def poiseuille(c):
    for n in sizes(c, OSM.rsplit(".", 1)[0], (5, 6, 8, 9, 12, 24) if c.thorough else (5, 6, 8, 16), 40):
        channel(c, n)


def channel(c, n):
    i = c.i
    d = odom()
    o = c.call(POI, n, AL, RE)
    x = list(nd(c, i.getattr(o, "x", None)))
    c.identity("Poiseuille: lower wall", x[0], num(-1), d)
    c.identity("Poiseuille: upper wall", x[-1], ONE, d)
    us = np.array([ONE - v * v for v in x], dtype=object)
    lo, hi = num(-1), ONE
    D1, D2, D4 = (dmat(c, n, k, lo, hi) for k in (1, 2, 4))
    where = c.where_of(c.get(POI))
    B, At = operators(c, o)
    rB, rA = os_ref(n, AL, RE, us, np.array([num(-2)] * n, dtype=object), D1, D2, D4)
    compare(c, "Poiseuille n=%d: B" % n, B, rB, d, where, "Orr-Sommerfeld operator of U = 1 - y^2")
    compare(c, "Poiseuille n=%d: At" % n, At, rA, d, where, "D2 - a2 with empty wall rows")


def pencil(c):
    """the eigenvalue problem is B v = omega (-i At) v"""
    i = c.i
    n = 5
    d = odom()
    o = c.call(POI, n, AL, RE)
    vals, vects = i.np.iterate(i, c.call(i.getattr(o, "solve_eig", None)), None)[1]
    B, At = operators(c, o)
    ts = [num(n)] + list(B.reshape(-1)) + [tm.lift(-1j) * v for v in At.reshape(-1)]
    where = c.where_of(c.get("aerokit.stability._base.LinOperator.solve_eig"))
    vals, vects = nd(c, vals), nd(c, vects)
    for k in range(n):
        c.identity("eigenvalue %d" % k, vals[k], tm.app("eigval", num(k), *ts), d, where=where, rule="pencil (B, -i.At)", n=4)
        c.identity("eigenvector %d" % k, vects[1, k], tm.app("eigvec", ONE, num(k), *ts), d, where=where, rule="pencil (B, -i.At)", n=4)


def run(c):
    for s in (euler_sym, euler_per, euler_uniform, euler_rh_left, euler_rh_right, orr, poiseuille, pencil):
        c.section(s)
    c.assumptions.append("Grids of 3 to 6 points with free node values of the base state")
