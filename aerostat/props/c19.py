"""C19 nozzle distributions."""
from .common import *
from .oracle import FUNCS

NZ = "aerokit.instance.nozzle.nozzle"
NPR = sym("NPR")
n_ = sym("n")
k_ = tm.IDX


def A(i):
    return tm.app("A", i)


def zones(q, z):
    """pressure ratio at fraction z of each regime"""
    return [1 + z * (q["NPR0"] - 1), q["NPR0"] + z * (q["NPRsw"] - q["NPR0"]), q["NPRsw"] * (1 + 4 * z)]


def spec(zone):
    At = tm.app("amin", tm.lam(sym("@j"), A(sym("@j"))), n_)
    it = tm.app("argmin", tm.lam(sym("@j"), A(sym("@j"))), n_)
    Ae = A(n_ - 1)
    S = Ae / At
    N, ms = tm.app("msup", S, g), tm.app("msub", S, g)
    ptr = sh_r(N) ** (g / (g - 1)) * sh_p(N) ** (-1 / (g - 1))
    q = dict(At=At, it=it, Ae=Ae, S=S, N=N, ms=ms, NPR0=pt(ms), NPRsw=pt(sh_m(N)) / ptr, NPR1=pt(N))
    d = gdom(z=("0.02", "0.98", "lin", "0.0005", "0.9995"), n=(3, 6, "int"), s=("1.1", "8", "log"), **{"@i": (0, 5, "int")})
    d.ranges["gamma"] = ("1.2", "1.6", "lin", "1.08", "1.9")
    d.appranges["A"] = ("1", "3", "log", "0.3", "12")
    d.funcs.update(FUNCS)
    d.brackets = [("1e-5", 1), (1, 60)]
    d.require(lt(k_, n_))
    d.require(gt(S, num(Fraction(11, 10))))
    z = sym("z")
    d.define("NPR", zones(q, z)[zone])
    x = sym("@s")
    if zone == 0:
        Ms = sqrt(2 / (g - 1) * (NPR ** ((g - 1) / g) - 1))
        M = tm.app("msub", A(k_) / Ae * sigma(Ms), g)
        P = num(1)
    else:
        up = ite(le(k_, it), tm.app("msub", A(k_) / At, g), tm.app("msup", A(k_) / At, g))
        if zone == 2:
            M, P = up, num(1)
        else:
            K = NPR / S * (2 / (g + 1)) ** ((g + 1) / (2 * (g - 1)))
            Ms = sqrt((sqrt(1 + 2 * (g - 1) * K * K) - 1) / (g - 1))
            loss = pt(Ms) / NPR
            q["Msh"] = tm.app("mnpt", loss, g)
            q["loss"], q["Ms"] = loss, Ms
            ish = it + 1 + tm.app("argmin", tm.lam(x, absv(tm.app("msup", A(it + 1 + x) / At, g) - q["Msh"])), n_ - it - 1)
            q["ish"] = ish
            after = ge(k_, ish)
            M = ite(after, tm.app("msub", A(k_) / Ae * sigma(Ms), g), up)
            P = ite(after, loss, num(1))
    q["M"], q["P"] = M, P
    return q, d


def build(c, x=None, whole=False, **kw):
    i = c.i
    sec = i.np.new_arr(i, A(tm.IDX), n_, dtype="int?" if whole else "float")
    return c.call(NZ, i.np.new_arr(i, tm.app("X", tm.IDX), n_, dtype=x or "float"), sec, gamma=g, **kw), sec


def zone(k, name):
    def s(c):
        i = c.i
        roots(c)
        z, sec = build(c)
        c.call(i.getattr(z, "set_NPR", None), NPR)
        q, d = spec(k)
        M, P, Ps = (meth(c, z, f) for f in ("Mach", "Ptot", "Ps"))
        npt = 64 if c.thorough else 16
        c.identity("%s: Mach number" % name, M, q["M"], d, n=npt, rule="section ratio on the branch of the regime")
        c.identity("%s: total pressure" % name, P, q["P"], d, n=npt, rule="constant except through the shock")
        c.identity("%s: static pressure" % name, Ps * pt(M), P, d, n=npt, rule="Pt = Ps.(Pt/Ps)(M)")
        if k < 2:
            e = tm.subst(Ps, {tm.IDX: n_ - 1})
            c.identity("%s: exit at outlet pressure" % name, e * NPR, num(1), d, n=npt, rule="Ps at the exit is Pt/NPR")
        # mass flow: Pt.A/Sigma(M) is the same in every section
        flow = lambda m, p, a: p * a / sigma(m)
        M0, P0 = (tm.subst(t, {tm.IDX: num(0)}) for t in (M, P))
        if k != 1:
            c.identity("%s: mass flow conserved" % name, flow(M, P, A(k_)), flow(M0, P0, A(num(0))), d, n=npt,
                       rule="Pt.A/Sigma(M) constant along the nozzle")
        for s_ in i.solves:
            pass
    s.__name__ = "zone%d" % k
    return s


def edges(c):
    """pressure ratios next to the limits of the regimes"""
    i = c.i
    roots(c)
    z, sec = build(c)
    c.call(i.getattr(z, "set_NPR", None), NPR)
    fs = [(f, meth(c, z, f)) for f in ("Mach", "Ptot")]
    for k, name, ends in ((0, "unchoked", (0, 1)), (1, "shock in the diffuser", (0, 1)), (2, "fully supersonic", (0,))):
        for end in ends:
            q, d = spec(k)
            d.ranges.pop("z")
            e = sym("e")
            d.add("e", ("1e-4", "0.03", "log"))
            d.defs = [x for x in d.defs if x[0] != "NPR"]
            d.define("z", 1 - e if end else e)
            d.define("NPR", zones(q, sym("z"))[k])
            for f, v in fs:
                c.identity("%s, next to its %s limit: %s" % (name, ("lower", "upper")[end], f), v, q["M" if f == "Mach" else "P"], d, n=24 if c.thorough else 6,
                           rule="section ratio on the branch of the regime")


def geometry(c):
    i = c.i
    roots(c)
    z, sec = build(c)
    q, d = spec(0)
    for k, w in (("AsoAc", q["S"]), ("NPR0", q["NPR0"]), ("NPRsw", q["NPRsw"]), ("NPR1", q["NPR1"]), ("Msub", q["ms"]),
                 ("Msup", q["N"]), ("Msh", sh_m(q["N"])), ("AxoAc", A(k_) / q["At"]), ("ithroat", q["it"])):
        c.identity("geometry and limits: %s" % k, attr(c, z, k), w, d, n=16)
    c.fact("the section law is not changed", i.payload(sec)["elem"] is A(tm.IDX), "argument array unchanged")


def forced(c):
    """section ratio given by the user"""
    i = c.i
    roots(c)
    s = sym("s")
    sec = i.np.new_arr(i, A(tm.IDX), n_)
    z = c.call(NZ, sym("xx"), sec, AsoAc=s, gamma=g)
    q, d = spec(0)
    c.identity("given section ratio is used", attr(c, z, "AsoAc"), s, d, n=16)
    c.identity("sections scaled on the exit section", attr(c, z, "AxoAc"), A(k_) / A(n_ - 1) * s, d, n=16)
    c.identity("limits from the given section ratio", attr(c, z, "NPR1"), pt(tm.app("msup", s, g)), d, n=16)


def whole_numbers(c):
    """coordinates or sections given as integers"""
    i = c.i
    roots(c)
    for lab, kw in (("integer coordinates", dict(x="int?")), ("integer sections", dict(whole=True)), ("integer coordinates and sections", dict(x="int?", whole=True))):
        (z, sec), (y, _) = build(c, **kw), build(c)
        for o in (z, y):
            c.call(i.getattr(o, "set_NPR", None), NPR)
        for k, name in enumerate(("unchoked", "shock in the diffuser", "fully supersonic")):
            d = spec(k)[1]
            d.appranges["X"] = (0, 5, "int")
            for f in ("Mach", "Ptot", "Ps"):
                c.identity("%s, %s: %s" % (lab, name, f), meth(c, z, f), meth(c, y, f), d, n=8, rule="the number type of the arguments has no effect")
        c.fact("%s: the section law is not changed" % lab, i.payload(sec)["elem"] is A(tm.IDX), "argument array unchanged")


def reset(c):
    """set_NPR depends on the last pressure ratio only; constructor argument and set_NPR agree"""
    i = c.i
    roots(c)
    z, _ = build(c)
    call = lambda o, x: c.call(i.getattr(o, "set_NPR", None), x)
    call(z, sym("N1"))
    held = {f: c.call(i.getattr(z, f, None)) for f in ("Mach", "Ps", "Ptot")}
    then = {f: scal(c, v) for f, v in held.items()}
    call(z, NPR)
    for f, v in held.items():
        now = scal(c, v)
        if now is then[f]:
            c.fact("%s obtained before another pressure ratio is set" % f, True, "distributions obtained keep their values")
        else:
            for zo, zk in ((2, 1), (1, 0)):
                q, dz = spec(zk)
                dz.add("zo", ("0.02", "0.98"))
                dz.define("N1", zones(q, sym("zo"))[zo])
                c.identity("%s obtained in regime %d before regime %d is set" % (f, zo, zk), now, then[f], dz, n=12, rule="distributions obtained keep their values")
    y, _ = build(c)
    call(y, NPR)
    x, _ = build(c, NPR=NPR)
    for zk in (0, 1, 2):
        _, dz = spec(zk)
        for f in ("Mach", "Ps", "Ptot"):
            b, e = meth(c, y, f), meth(c, x, f)
            c.identity("%s when given at construction (regime %d)" % (f, zk), e, b, dz, n=8, rule="constructor and set_NPR agree")
        for zo in (0, 1, 2):
            q, dz = spec(zk)
            dz.add("zo", ("0.02", "0.98"))
            dz.define("N1", zones(q, sym("zo"))[zo])
            for f in ("Mach", "Ps", "Ptot"):
                c.identity("%s of regime %d after one of regime %d" % (f, zk, zo), meth(c, z, f), meth(c, y, f), dz, n=12, rule="no trace of the previous set_NPR")


def run(c):
    c.section(geometry)
    c.section(forced)
    for k, name in ((0, "unchoked"), (1, "shock in the diffuser"), (2, "fully supersonic")):
        c.section(zone(k, name), name)
    c.section(edges)
    c.section(whole_numbers)
    c.section(reset)
