"""C30 real-gas and kerosene tables."""
from .common import *

T = sym("T")
R = num(Fraction(28704, 100))
RG, KE = "aerokit.aero.ThermoRealGas", "aerokit.aero.ThermoKerosen"
TOL = "2e-4"      # the published coefficients carry 4 digits


def realgas(c):
    f = fn(c, RG)
    d = dom(T=(200, 3000, "lin", 20, 6000))
    cp = f("Cp", T)
    c.identity("enthalpy slope is the heat capacity", tm.diff(f("Enthalpy", T), T), cp, d, rule="dH/dT = Cp", rtol=TOL)
    c.identity("entropy function slope", tm.diff(f("Phi", T), T) * T * log(num(10)), cp / R, d, rule="dPhi/dT = Cp/(r.T.ln 10)", rtol=TOL)
    c.identity("gamma from the heat capacity", f("Gamma", T), cp / (cp - R), d, rule="gamma = Cp/(Cp-r)")
    k = sym("k")
    d2 = dom(T=(200, 2500), k=("1.001", "1.2"))
    for name in ("Cp", "Enthalpy", "Phi"):
        c.condition("%s increases with temperature" % name, lt(f(name, T), f(name, k * T)), d2 if name != "Cp" else dom(T=(350, 2000), k=("1.001", "1.2")))
    c.identity("enthalpy is 7/2 r.T when cold", f("Enthalpy", T), num(Fraction(7, 2)) * R * T, dom(T=(50, 150)), rule="H = Cp.T at constant Cp", rtol="1e-3")
    c.condition("diatomic gas when cold", lt(absv(f("Gamma", T) - num(Fraction(7, 5))), num(Fraction(1, 100))), dom(T=(200, 350)))


def kerosene(c):
    f = fn(c, KE)
    d = dom(T=(200, 2500, "lin", 20, 4000))
    cp = f("Cp", T)
    c.identity("kerosene enthalpy slope is the heat capacity", tm.diff(f("Enthalpy", T), T), cp, d, rule="dH/dT = Cp", rtol=TOL)
    c.identity("kerosene entropy function slope", tm.diff(f("Phi", T), T) * T * log(num(10)), cp / R, d, rule="dPhi/dT = Cp/(r.T.ln 10)", rtol=TOL)
    c.identity("effective heating value falls with the fuel enthalpy", tm.diff(f("Pc_eff", T), T), -cp, d, rule="dPc/dT = -Cp", rtol=TOL)
    inf = f("Pc_inf")
    c.identity("effective heating value is the lower heating value at 288 K", f("Pc_eff", num(288)) / inf, num(1), dom(T=(1, 2)), rtol="1e-5")
    c.identity("lower heating value is 10300 kcal/kg", inf, num(10300 * 4184), dom(T=(1, 2)))


def run(c):
    c.section(realgas)
    c.section(kerosene)
