"""C37 what is printed about an object is what it holds."""
import numpy as _np

from .common import *
from ..interp import Text, Str

UQ, RI, IN = "aerokit.aero.unsteady1D.unsteady_state", "aerokit.instance.riemann.riemann_pb", "aerokit.instance.unsteady_inflow.inflow_pb"
MO = "aerokit.aero.model1D.state"
CY = "aerokit.engine.Cycle_Turbofan."
RULE = "printed values are the object's"


def parts(v):
    if isinstance(v, str):
        return (v,)
    return v.parts if isinstance(v, Text) else None


def groups(c, tag, where, text, want):
    """want: [(label wanted in the text before the group, [values])] in order"""
    ps = parts(text)
    if ps is None:
        c.add(tag, where, RULE, "undecided", "text not represented")
        return
    vals = [(n, p[0]) for n, p in enumerate(ps) if not isinstance(p, str)]
    flat = [(lab, nm, v) for lab, g in want for nm, v in g]
    c.fact("%s: values listed" % tag, len(vals) == len(flat), "every value once", where=where, detail="%d values for %d" % (len(vals), len(flat)))
    if len(vals) != len(flat):
        return
    k = 0
    for lab, g in want:
        first = vals[k][0]
        head = ps[first - 1] if first and isinstance(ps[first - 1], str) else ""
        names = [nm for nm, _ in g]
        pos = [head.find(nm) for nm in names]
        c.fact("%s: names before the values%s" % (tag, " " + lab if lab else ""), all(x >= 0 for x in pos) and pos == sorted(pos) and lab in head.split("\n")[-1],
               "names in the order of the values", where=where, detail=head)
        for nm, v in g:
            c.identity("%s: %s%s" % (tag, nm, " " + lab if lab else ""), scal(c, vals[k][1]), v, STD, where=where, rule=RULE)
            k += 1


STD = dom(g=("1.05", "1.67"), r=("0.1", 10), u=(-500, 500), p=(100, 1000000), rL=("0.1", 10), uL=(-50, 50), pL=(90000, 110000), gL=("1.1", "1.6"),
          rR=("0.1", 10), uR=(-50, 50), pR=(90000, 110000), gR=("1.1", "1.6"))


def three(q):
    return [("rho", q[0]), ("u", q[1]), ("p", q[2])]


def held(c, o, name):
    q = c.i.np and c.i.getattr(o, name)
    return [scal(c, c.i.getattr(q, k)) for k in ("rho", "u", "p")]


def reader(c, o):
    return c.call(c.i.getattr(o, "__repr__", None))


def states(c):
    roots(c)
    q = [sym(k) for k in ("r", "u", "p", "g")]
    for cls in (MO, UQ):
        o = c.call(cls, *q)
        w = c.where_of(c.get(cls))
        groups(c, "text of a %s" % cls.split(".")[-1], w, reader(c, o), [("", three(q))])
        c.identity("size of a %s" % cls.split(".")[-1], scal(c, c.i.getattr(o, "size", None)), num(1), STD, where=w, rule="number of states")
        o2 = c.call(cls, *[c.i.np.new_arr(c.i, x * (1 + tm.IDX), sym("n")) for x in q[:3]], q[3])
        c.identity("size of an array of %s" % cls.split(".")[-1], scal(c, c.i.getattr(o2, "size", None)), sym("n"), dom(n=(1, 9, "int")), where=w, rule="number of states")
        for sh in ((2, 3), (3, 1), (1, 4), (1,), (5,), (2, 2, 2)):
            fields = []
            for x in q[:3]:
                v = _np.empty(sh, dtype=object)
                for k, ix in enumerate(_np.ndindex(*sh)):
                    v[ix] = x * (1 + k)
                fields.append(c.i.np.new_nd(c.i, v))
            o3 = c.call(cls, *fields, q[3])
            c.identity("size of a %s array of %s" % (" x ".join(map(str, sh)), cls.split(".")[-1]), scal(c, c.i.getattr(o3, "size", None)),
                       num(int(_np.prod(sh))), STD, where=w, rule="number of states")


def problems(c):
    roots(c)
    L, R = ([sym(k + s_) for k in ("r", "u", "p", "g")] for s_ in "LR")
    for tag, left, right in (("", L, R),):
        pb = c.call(RI, c.call(UQ, *left), c.call(UQ, *right))
        c.pending = []
        groups(c, "text of a Riemann problem", c.where_of(c.get(RI)), reader(c, pb), [("_L", three(left)), ("_R", three(right))])
    pb = c.call(IN, c.call(UQ, *R))
    c.pending = []
    v = {}
    for k in ("L", "R"):
        for n_ in ("rho", "u", "p"):
            v[n_ + k] = sym("s" + n_ + k)
        c.i.setattr(pb, "_qstar" + k, c.call(UQ, *[v[n_ + k] for n_ in ("rho", "u", "p")], R[3]), None)
    STD.ranges.update({"s" + n_ + k: (1, 9) for n_ in ("rho", "u", "p") for k in "LR"})
    groups(c, "text of an inflow problem", c.where_of(c.get(IN)), reader(c, pb),
           [("*_L", three([v[n_ + "L"] for n_ in ("rho", "u", "p")])), ("*_R", three([v[n_ + "R"] for n_ in ("rho", "u", "p")])), ("_R", three(R))])


PERFO = [("F", ("pouss", "thrust"), ("spécifique", "specific"), " n", 1), ("F_spe", ("poussée spécifique", "specific thrust"), (), "n.s/kg", 1),
         ("mk_spe", ("consommation", "consumption"), (), "g/kn/s", 1), ("eta_th", ("thermique", "thermal"), (), "", 1),
         ("eta_prop", ("propulsif", "propulsive"), (), "", 1), ("eta", ("global", "overall"), (), "", 1)]


def turbofans(c):
    from . import c22
    for cls in (c22.FIX, c22.CAL):
        o = c22.complete(c, cls)
        c.pending = []
        f = c.i.getattr(o, "show_perfo", None)
        w = c.where_of(c.get(cls + ".show_perfo"))
        n0 = len(c.i.events)
        c.call(f)
        c.pending = []
        lines = []
        for e in c.i.events[n0:]:
            if e.kind == "print":
                ps = []
                for a in e.data["args"]:
                    p = parts(a) if isinstance(a, (str, Str)) else ((a, ""),)
                    ps += [" "] + list(p if p is not None else [(None, "")])
                text = "".join(p for p in ps if isinstance(p, str)).replace("\t", " ").lower()
                lines.append((text, [p[0] for p in ps if not isinstance(p, str)]))
        lines = [l for l in lines if l[1]]
        if not lines or any(v is None for _, vs in lines for v in vs):
            silent = len(c.i.events) == n0
            c.add("%s: printed performance" % cls.split(".")[-1], w, RULE, "violated" if silent else "undecided", "nothing is printed" if silent else "lines not recognised")
            continue
        d = c22.cdom(cls)
        d.direct = False
        for k, yes, no, unit, _ in PERFO:
            ls = [vs for t, vs in lines if any(x in t for x in yes) and not any(x in t for x in no)]
            tag = "%s: printed %s" % (cls.split(".")[-1], k)
            c.fact(tag + " once", True if len(ls) == 1 and len(ls[0]) == 1 else (False if not ls else None), "every performance has its line", where=w)
            if len(ls) == 1 and len(ls[0]) == 1:
                c.identity(tag, scal(c, ls[0][0]), attr(c, o, k), d, where=w, rule=RULE)
        c.fact("%s: units" % cls.split(".")[-1], all(any(x in t for x in yes) and not any(x in t for x in no) and unit in t for t, _ in lines
               for k, yes, no, unit, _ in PERFO if any(x in t for x in yes) and not any(x in t for x in no)), "unit of the printed value", where=w)


def database(c):
    from . import c32
    plain = {"newvar": "NewName"}
    # names that differ by their letters only, whichever comes first
    for soft, add in (("IC3", plain), ("OpenFOAM", plain), ("IC3", {"v": "v_low", "RHO": "r_up", "Tauw_avg": "t_mixed"}), ("OpenFOAM", {"Q": "q_up", "q": "q_low", "U_AVG": "u_up"})):
        c.call(c32.DV + "setDicoVar", soft)
        o = c32.dv(c)
        for k, v in add.items():
            c.call(c.i.getattr(o, "addVar", None), k, v)
        tag = "listing of %s%s" % (soft, "" if add is plain else " with names in other letters")
        w = c.where_of(c.get(c32.DV + "_DicoVar.printDatabase"))
        n0 = len(c.i.events)
        c.call(c.i.getattr(o, "printDatabase", None))
        lines = [e.data["args"] for e in c.i.events[n0:] if e.kind == "print"]
        text = [" ".join(a) for a in lines if all(isinstance(x, str) for x in a)]
        if len(text) < len(lines) or not text:
            c.add(tag, w, RULE, "undecided", "lines not recognised")
            continue
        rows = "\n".join(text).split("\n")
        want = dict(c32.TABLES[soft], **add)
        for k, v in sorted(want.items()):
            hit = [x for x in rows if "=>" in x and x.split("=>")[0].strip() == k]
            c.fact("%s: %s" % (tag, k), len(hit) == 1 and hit[0].split("=>")[1].strip() == v, "one line per variable with its denomination", where=w, detail=repr(hit))
        c.fact("%s: name" % tag, any(soft in x for x in rows), "software named", where=w)


def run(c):
    for f in (states, problems, turbofans, database):
        c.section(f)
