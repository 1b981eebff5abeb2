"""M09: results read on a mesh."""
import os

import toughio
from core import enc_num
from meshes import *
from checks.m07 import vals

MC = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS NCells=%d\nNNames=%d\nMaxConn=%d\nMode=%d\nEmit=%d\n"
      "INVARIANTS Own OnlyPerms Turned Reversed Single Additive Roots Emitted\n")


def output(type_, time, labels, data, fmt="csv"):
    return toughio.Output(type_, fmt, time, labels, data)


def number(rng):
    return float("%.*e" % (rng.randint(0, 11), rng.uniform(-1, 1) * 10.0 ** rng.randint(-20, 20)))


def centres(g):
    """Integers on a common scale, or None when directions are too fine for the specification."""
    import math
    P = numpy.array(g.pts)
    C = [[int(x) for x in sum(P[list(n)]) * (120 // len(n))] for _, n in g.cells]
    o = C[0]
    C = [[a - b for a, b in zip(x, o)] for x in C]
    h = 0
    for x in C:
        for a in x:
            h = math.gcd(h, a)
    C = [[a // (h or 1) for a in x] for x in C]
    for i, a in enumerate(C):
        for b in C[:i]:
            d = [p - q for p, q in zip(a, b)]
            q = math.gcd(*[abs(t) for t in d])
            if q == 0 or sum((t // q) ** 2 for t in d) > 200000:
                return None
    return C


def grid(rng, maxcells=20):
    while True:
        g = build(rng, maxvox=4, maxcells=maxcells)
        C = centres(g)
        if C:
            return g, C


def old_data(rng, n):
    return {k: rng.choice([lambda: numpy.arange(n), lambda: numpy.array([[number(rng)] * 3 for _ in range(n)]), lambda: numpy.array([number(rng) for _ in range(n)])])()
            for k in rng.sample(["material", "PRES", "old", "HEAT"], rng.randint(0, 3))}


class Hist:
    def __init__(self, c, rng, g, C, n_series=None):
        self.c, self.rng, self.g = c, rng, g
        self.m = g.mesh()
        self.m.cell_data = old_data(rng, self.m.n_cells)
        if rng.random() < 0.3:
            self.m.label_length = rng.choice([6, 7])
        self.L = [str(x) for x in self.m.labels]
        self.events = [dict(op="mesh", labels=self.L, centers=C, cd=self.cd())]
        self.h0 = None

    def cd(self):
        return {k: vals(v) for k, v in self.m.cell_data.items()}

    def spec_of(self, o, unit):
        d = dict(type=o.type, labels=[str(x) for x in o.labels] if o.type == "element" else [[str(y) for y in x] for x in o.labels], data={}, ints={})
        if o.type == "element":
            d["data"] = {k: vals(v) for k, v in o.data.items()}
        else:
            d["ints"] = {k: [int(round(float(x) / unit)) for x in v] for k, v in o.data.items()}
        return d

    def read(self, arg, outs, t=None, scalar=False, bad=False, unit=1.0, kw=None, specs=None):
        was = fingerprint(self.m)
        e = dict(op="read", t=-1 if t is None else t, scalar="1" if scalar else "0", bad="1" if bad else "0",
                 outs=[] if bad else (specs or [self.spec_of(o, unit) for o in outs]), obs={})
        kw = dict(kw or {})
        if t is not None:
            kw["time_step"] = t
        if bad and "time_step" in (kw or {}):
            pass
        _, e["err"] = guarded(lambda: self.m.read_output(arg, **kw))
        e["same"] = "1" if fingerprint(self.m) == was else "0"
        e["cd"] = self.cd()
        for o in e["outs"]:
            if o["type"] == "connection" and not e["err"]:
                for k in o["ints"]:
                    a = numpy.asarray(self.m.cell_data.get(k, []), dtype=float)
                    if a.ndim == 2 and a.shape[1] == 3:
                        e["obs"][k] = [[int(numpy.clip(round(x / unit), -10**8, 10**8)) if x == x else 10**8 for x in r] for r in a.tolist()]
        self.events.append(e)
        self.c.count("read" if not e["err"] else "rejected")


def element_series(rng, L, nsteps, variables, bad=False):
    """Outputs of several steps; sometimes they share one array of labels."""
    n = len(L)
    perm = rng.sample(L, n) if rng.random() < 0.8 else list(L)
    if bad:
        k = rng.randrange(4)
        if k == 0:
            perm[rng.randrange(n)] = "ZZZ99"
        elif k == 1:
            perm = perm + [rng.choice(["ZZZ99", perm[0]])]
        elif k == 2:
            perm = perm[:-1]
        elif n > 1:
            perm[0] = perm[1]
        else:
            perm = []
    shared = numpy.array(perm, dtype="U9") if perm else numpy.array([], dtype="U9")
    share = rng.random() < 0.5
    outs = []
    for i in range(nsteps):
        p = perm if share or bad else rng.sample(L, n)
        lab = shared if share else numpy.array(p, dtype="U9")
        data = {k: numpy.array([number(rng) for _ in p]) for k in variables}
        outs.append(output("element", float(i), lab, data))
    return outs


def connection_series(rng, h, nsteps, variables, unit, bad=False):
    n = len(h.L)
    outs = []
    prs = [(i, j) for i in range(n) for j in range(n) if i != j]
    for i in range(nsteps):
        k = rng.choice([0, 1, 2, min(len(prs), 12)]) if prs else 0
        sel = rng.sample(prs, min(k, len(prs)))
        lab = [(h.L[a], h.L[b]) for a, b in sel]
        if bad and lab:
            q = rng.randrange(len(lab))
            lab[q] = (lab[q][0], "ZZZ99") if rng.random() < 0.5 else ("ZZZ99", lab[q][1])
        val = {v: numpy.array([rng.choice([-1, 1, 1, 0]) * rng.randint(1000, 9999) * unit for _ in lab]) for v in variables}
        outs.append(output("connection", float(i), numpy.array(lab, dtype="U9").reshape(len(lab), 2), val))
    return outs


def save_file(name, L, values, por):
    with open(name, "w") as f:
        f.write("INCON -- INITIAL CONDITIONS\n")
        for lab, v, p in zip(L, values, por):
            f.write("%-15s%15.8e\n" % (lab, p))
            f.write("".join("%20.13e" % x for x in v) + "\n")
        f.write("+++\n")


def run(c):
    rng = c.rng
    r1 = c.mc("ResultsMC", MC % (3, 4, 1, 1, 1), name="every list of labels on 3 cells")
    r2 = c.mc("ResultsMC", MC % (3, 3, 2, 2, 1), name="every pair of connections of 3 cells")
    groups = []
    # the model's outputs on real meshes
    g, C = GM([(x, y, z) for z in (0, 2) for y in (0, 2) for x in (0, 2, 4, 6)],
              [("hexahedron", [i, i + 1, i + 5, i + 4, i + 8, i + 9, i + 13, i + 12]) for i in range(3)], [3], 0), None
    C = centres(g)
    for d in r1.tagged("EL"):
        h = Hist(c, rng, g, C)
        name = {"c%d" % (i + 1): x for i, x in enumerate(h.L)}
        name["c4"] = "XYZ 1"
        lab = [name[x] for x in d["s"]]
        o = output("element", 0.0, numpy.array(lab), {"v": numpy.array([float(i + 1) for i in range(len(lab))])})
        h.read(o, [o], scalar=True)
        groups.append(h.events)
    for d in r2.tagged("CO"):
        h = Hist(c, rng, g, C)
        lab = [(h.L[i - 1], h.L[j - 1]) for i, j, _ in d["s"]]
        o = output("connection", 0.0, numpy.array(lab), {"q": numpy.array([float(v) for _, _, v in d["s"]])})
        h.read(o, [o], scalar=True)
        groups.append(h.events)
    # histories
    for _ in range(c.quick(130, 900)):
        g, C = grid(rng)
        h = Hist(c, rng, g, C)
        series = {}
        names = ["X", "PRES", "TEMP", "SG", "FLOW (KG/S)", "material", "Q"]
        for _ in range(rng.randint(2, 6)):
            kind = rng.randrange(10)
            n = rng.choice([1, 2, 3, 5])
            vs = rng.sample(names, rng.randint(1, 3))
            unit = 10.0 ** rng.randint(-6, 6)
            if kind < 4:
                key = rng.choice(["a", "b"])
                if key not in series:
                    o = element_series(rng, h.L, n, vs)
                    series[key] = (o, [h.spec_of(x, 1.0) for x in o])
                outs, specs = series[key]
                t = rng.choice([None, rng.randint(-len(outs) - 1, len(outs))])
                h.read(rng.choice([outs, tuple(outs)]), outs, t, specs=specs)
            elif kind == 4:
                outs = element_series(rng, h.L, 1, vs, bad=rng.random() < 0.3)
                h.read(outs[0], outs, scalar=True)
            elif kind == 5:
                outs = element_series(rng, h.L, n, vs, bad=True)
                h.read(outs, outs, rng.choice([None, 0, -1]))
            elif kind == 6:
                outs = element_series(rng, h.L, n, [v for v in vs if "(" not in v] or ["P"])
                fmt = rng.choice(["csv", "petrasim"])
                specs = [h.spec_of(x, 1.0) for x in outs]
                toughio.write_output("out.csv", outs, file_format=fmt)
                h.read("out.csv", outs, rng.choice([None, rng.randint(-n, n - 1), n]), specs=specs)
            elif kind == 7:
                k = rng.randint(1, 4)
                lab = rng.sample(h.L, len(h.L))
                if rng.random() < 0.2 and len(lab) > 1:
                    lab = lab[1:]
                va = [[number(rng) for _ in range(k)] for _ in lab]
                po = [round(rng.random(), 6) for _ in lab]
                if len(lab[0]) == 5:
                    save_file("SAVE", lab, va, po)
                    o = output("element", 0.0, lab, dict({"X%d" % (i + 1): numpy.array([v[i] for v in va]) for i in range(k)}, porosity=numpy.array(po)))
                    h.read("SAVE", [o], scalar=True)
            elif kind == 8:
                outs = connection_series(rng, h, n, [v for v in vs if v != "X"] or ["Q"], unit, bad=rng.random() < 0.2)
                one = rng.random() < 0.3
                h.read(outs[0] if one else outs, outs[:1] if one else outs, None if one else rng.choice([None, rng.randint(-n, n - 1)]), scalar=one, unit=unit)
            else:
                outs = element_series(rng, h.L, 2, vs)
                k = rng.randrange(5)
                if k == 0:
                    h.read(rng.choice([3, None, {"a": 1}, 1.5]), [], bad=True)
                elif k == 1:
                    h.read(outs, [], bad=True, kw={"time_step": rng.choice([1.0, "0", None])})
                elif k == 2:
                    h.read("nothing.csv", [], bad=True)
                elif k == 3:
                    h.read([], [], bad=True)
                else:
                    open("junk.csv", "w").write(rng.choice(["", "\n", "hello\n", "1,2,3\n"]))
                    h.read("junk.csv", [], bad=True)
        groups.append(h.events)
    c.sample(lambda: {"labels": groups[-1][0]["labels"][:6], "steps": [(e["op"], e.get("t"), e.get("err")) for e in groups[-1]]})
    report(c, c.trace("ResultsTrace", None, groups=groups), ("err", "t", "scalar", "outs"))
    c.assumptions += ["connection vectors are judged to four parts in ten thousand of the largest flow of a connection",
                      "cells named by an output occur once; results are numeric"]
