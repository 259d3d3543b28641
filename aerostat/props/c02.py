"""C02 the prescribed gas is the gas computed with."""
from .common import *

A = "aerokit.aero."
MS = dict(Mach=("1.3", "5"))
# function -> {argument: range}; gamma is always passed explicitly
TABLE = {
    A + "Isentropic.TtTs_Mach": dict(Mach=("0.2", "4", "log", "1e-4", "1e3")),
    A + "Isentropic.PtPs_Mach": dict(Mach=("0.2", "4", "log", "1e-4", "1e3")),
    A + "Isentropic.Mach_TtTs": dict(TtTs=("1.1", "4", "log", "1.00001", "1e6")),
    A + "Isentropic.Mach_PtPs": dict(PtPs=("1.1", "40", "log", "1.00001", "1e12")),
    A + "Isentropic.Velocity_MachTt": dict(Mach=("0.2", "4", "log", "1e-4", "1e3"), Tt=(200, 900, "log", "1e-2", "1e5"), r=(100, 900, "log", "1e-2", "1e5")),
    A + "MassFlow.WeightMassFlow": dict(Mach=("0.2", "4", "log", "1e-4", "1e3"), r=(100, 900, "log", "1e-2", "1e5")),
    A + "MassFlow.Sigma_Mach": dict(Mach=("0.2", "4", "log", "1e-4", "1e3")),
    A + "MassFlow.Mach_Sigma": dict(sigma=("1.1", "6", "log", "1.0001", "500"), Mach=("0.2", "4", "log", "1e-4", "1e3")),
    A + "MassFlow.MachSub_Sigma": dict(sigma=("1.1", "6", "log", "1.0001", "500")),
    A + "MassFlow.MachSup_Sigma": dict(sigma=("1.1", "6", "log", "1.0001", "500")),
    A + "Fanno.maxFparam_Mach": dict(Mach=("0.2", "4", "log", "1e-4", "1e3")),
    A + "Fanno.Ps_Pscri": dict(Mach=("0.2", "4", "log", "1e-4", "1e3")),
    A + "Fanno.Ts_Tscri": dict(Mach=("0.2", "4", "log", "1e-4", "1e3")),
    A + "Fanno.Rho_Rhocri": dict(Mach=("0.2", "4", "log", "1e-4", "1e3")),
    A + "Fanno.Pi_Picri": dict(Mach=("0.2", "4", "log", "1e-4", "1e3")),
    A + "Fanno.V_Vcri": dict(Mach=("0.2", "4", "log", "1e-4", "1e3")),
    A + "Fanno.NormdS": dict(Mach=("0.2", "4", "log", "1e-4", "1e3")),
    A + "Rayleigh.maxTiratio_Mach": dict(Mach=("0.2", "4", "log", "1e-4", "1e3")),
    A + "Rayleigh.Ps_Pscri": dict(Mach=("0.2", "4", "log", "1e-4", "1e3")),
    A + "Rayleigh.Ts_Tscri": dict(Mach=("0.2", "4", "log", "1e-4", "1e3")),
    A + "Rayleigh.Rho_Rhocri": dict(Mach=("0.2", "4", "log", "1e-4", "1e3")),
    A + "Rayleigh.Ti_Ticri": dict(Mach=("0.2", "4", "log", "1e-4", "1e3")),
    A + "Rayleigh.Pi_Picri": dict(Mach=("0.2", "4", "log", "1e-4", "1e3")),
    A + "Rayleigh.V_Vcri": dict(Mach=("0.2", "4", "log", "1e-4", "1e3")),
    A + "Rayleigh.NormdS": dict(Mach=("0.2", "4", "log", "1e-4", "1e3")),
    A + "Rayleigh.SubMach_TiTicri": dict(Tiratio=("0.2", "0.95", "log", "1e-6", "0.99999")),
    A + "Rayleigh.SupMach_TiTicri": dict(Tiratio=("0.7", "0.95", "lin", "0.6", "0.99999")),
    A + "ShockWave.Ps_ratio": dict(Mn=("1.1", "5", "log", "1.00001", "1e3")),
    A + "ShockWave.Mn_Ps_ratio": dict(Pratio=("1.1", "9", "log", "1.00001", "1e6")),
    A + "ShockWave.Rho_ratio": dict(Mn=("1.1", "5", "log", "1.00001", "1e3")),
    A + "ShockWave.Ts_ratio": dict(Mn=("1.1", "5", "log", "1.00001", "1e3")),
    A + "ShockWave.downstream_Mn": dict(Mn=("1.1", "5", "log", "1.00001", "1e3")),
    A + "ShockWave.Pt_ratio": dict(Mn=("1.1", "5", "log", "1.00001", "1e3")),
    A + "ShockWave.Mn_Pt_ratio": dict(ptratio=("0.3", "0.95", "log", "1e-4", "0.9999")),
    A + "ShockWave.deflection_Mach_sigma": dict(Mach=("2", "5"), sigma=(35, 80, "lin", 31, 90)),
    A + "ShockWave.deflection_Mach_ShockPsratio": dict(Mach=("2.5", "5"), Pratio=("1.5", "4", "log", "1.0001", "6")),
    A + "ShockWave.downstreamMach_Mach_ShockPsratio": dict(Mach=("2.5", "5"), Pratio=("1.5", "4", "log", "1.0001", "6")),
    A + "ShockWave.weaksigma_Mach_deflection": dict(Mach=("2", "5"), deflection=(2, 12, "log", "1e-3", 20)),
    A + "ShockWave.strongsigma_Mach_deflection": dict(Mach=("2", "5"), deflection=(2, 12, "log", "1e-3", 20)),
    A + "ShockWave.sigma_Mach_deflection": dict(Mach=("2", "5"), deflection=(2, 12, "log", "1e-3", 20), init=(20, 60)),
    A + "ShockWave.dev_Max": dict(Mach=("1.3", "5", "log", "1.001", "100")),
    A + "ShockWave.dev_Sonic": dict(Mach=("1.3", "5", "log", "1.001", "100")),
    A + "ShockWave.sigma_DevMax": dict(Mach=("1.3", "5", "log", "1.001", "100")),
    A + "ShockWave.sigma_Sonic": dict(Mach=("1.3", "5", "log", "1.001", "100")),
    A + "ShockWave.conical_deflection_Mach_sigma": dict(Mach=("2", "5"), sigma=(35, 80, "lin", 31, 90)),
    A + "ShockWave.conical_sigma_Mach_walldeflection": dict(Mach=("2", "5"), deflection=(5, 20)),
    A + "ShockWave.conical_Mach_walldeflection_sigma": dict(deflection=(5, 20), sigma=(35, 80, "lin", 31, 90)),
    A + "Supersonic.PrandtlMeyer_Mach": dict(Mach=("1.3", "5", "log", "1.001", "100")),
    A + "Supersonic.Mach_PrandtlMeyer": dict(omega=(2, 80, "lin", "0.01", 100)),
    A + "Supersonic.old_Mach_PrandtlMeyer": dict(omega=(2, 80, "lin", "0.01", 100)),
    A + "Supersonic.Mach_PMFmmu": dict(om_m_mun=(-80, -5, "lin", -89, 60)),
    A + "Supersonic.deflection_Mach_IsentropicPsratio": dict(Mach=("1.5", "5"), Pratio=("0.2", "0.8", "log", "1e-4", "1")),
    A + "Supersonic.IsentropicPsratio_Mach_deflection": dict(Mach=("1.5", "5"), dev=(2, 12, "lin", 0, 20)),
    A + "Propulsion.ThrustFunction": dict(Mach=("0.2", "4", "log", "1e-4", "1e3")),
    A + "Propulsion.Mach_ThrustFunction": dict(thrust=("1.1", "3"), Mach=("0.2", "4", "log", "1e-4", "1e3")),
    "aerokit.instance.nozzle.Ms_from_AsAc_NPR": dict(AsAc=("1.2", "4", "log", "1.001", "50"), NPR=("1.01", "20", "log", "1.0001", "1e4")),
}
DEFAULT = ["dflt:*", "hist:*"]
OWN = {"old_Mach_PrandtlMeyer"}


def secant(i, f, args, kw, node):
    a = dict(zip(["f", "y", "x", "tol"], args))
    a.update(kw)
    return i.np.make_root(i, a["f"], a["y"], a["x"], {"tol": a.get("tol")}, node, "secant")


def one(name, ranges):
    def section(c):
        i = c.i
        i.opaque["aerokit.aero.IterativeSolve.secant_solve"] = secant
        f = c.get(name)
        sub_, d = {}, gdom()
        # a new generic point: the arguments by name
        i.taint_defaults = True
        kw = {k: sym(k) for k in ranges}
        params = [a.arg for a in f.node.args.args]
        if "gamma" not in params:
            c.fact("%s: takes a gas" % name, False, "gamma parameter present",
                   detail="no gamma parameter any more")
            return
        for k, v in ranges.items():
            d.add(k, v)
        for p in params:
            if p.startswith("gam") and p != "gamma":
                kw[p] = sym(p)
                d.add(p, GAM)
        d.add("tol", ("1e-8", "1e-4", "log"))
        n0 = len(i.loops)
        v = scal(c, c.call(f, gamma=g, **kw))
        short = name.split(".")[-1]
        loops = i.loops[n0:]
        if loops:
            bad = sorted({s for l in loops for s in loop_syms(i, l) if s.startswith("dflt:")
                          or s.startswith("hist:aerokit.common.defaultgas")})
            c.fact("%s: no default gas inside its iteration" % short, not bad,
                   "default-gas symbols absent from the iteration's update", detail=", ".join(bad))
            deps = {s for l in loops for s in loop_syms(i, l)}
            c.fact("%s: iteration uses the gas given" % short, "gamma" in deps or "gamma" in tm.free_syms(v),
                   "gamma in the iteration's dependence set")
            c.pending = []
        else:
            c.independent("%s: default gas is not used when a gas is given" % short, v, DEFAULT, d,
                          rule="no dependence on default-gas symbols")
            d2 = d.copy()
            dep = tm.free_syms(v)
            ok = "gamma" in dep
            key = None
            if ok:
                from .. import identity as idn
                ok = idn.independent(v, ["gamma"], d2).status == "differ"
            if short == "maxTiratio_Mach":
                key = "rayleigh-maxTiratio-gamma"
                # the recorded defect is: exactly the gamma=1.4 value whatever the gas
                f14 = power(tm.app("id", M), num(1)) if False else None
                m = sym("Mach")
                g14 = tm.fnum(1.4)
                spec14 = div(sq(plus(1, times(g14, sq(m)))), times(2, gp1(g14), sq(m), tt(m, g14)))
                from .. import identity as idn
                if not idn.equal(v, spec14, d).ok:
                    key = None
            c.fact("%s: result depends on the gas given" % short, ok, "gamma in the dependence set", key=key)
    section.__name__ = name.split(".")[-1]
    return section


def loop_syms(i, l):
    out = set()
    pre = l.pre
    for oid, p in l.post.heap.items():
        q = l.mu_heap.get(oid)
        if q is p:
            continue
        if p.kind == "frame":
            for k, v in p["vars"].items():
                if isinstance(v, tm.T):
                    out |= tm.free_syms(v)
        elif p.kind == "nd" and p["val"] is not None:
            for v in p["val"].reshape(-1):
                if isinstance(v, tm.T):
                    out |= tm.free_syms(v)
        elif p.kind == "arr":
            out |= tm.free_syms(p["elem"])
    for l_ in (l.cond,):
        if isinstance(l_, tm.T):
            out |= tm.free_syms(l_)
    return out


def run(c):
    for name, ranges in TABLE.items():
        c.section(one(name, ranges), name.split(".")[-1])
    c.assumptions += ["Functions listed are the public functions with a gamma parameter; others take no gas."]
