"""K01: relative permeability and capillary pressure curves."""
import cmath
import multiprocessing
import os
import random
from fractions import Fraction

import numpy
import toughio
from core import guarded
from meshes import report

MC = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Steps=%d\nFine=%d\nEmit=1\nINVARIANTS Bounds Grows Falls Ends GasStops Complement Residual Suction Weaker Limit NoneAtFull Dry Inverse Refusals Emitted\n"
FIXED = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT N=%d\nINVARIANTS Inverses Quotient Product Powers Signs Constants\n"
FAM = {"rel": toughio.relative_permeability, "cap": toughio.capillarity}
REL = ["Linear", "Pickens", "Corey", "Grant", "FattKlikoff", "vanGenuchtenMualem", "Verma"]
CAP = ["Linear", "Pickens", "TRUST", "Milly", "vanGenuchten"]


def units(v):
    """The exact value in units of 1e-16, truncated."""
    if isinstance(v, (complex, numpy.complexfloating)) or not isinstance(v, (int, float, numpy.number)):
        return "other"
    if cmath.isnan(v):
        return "nan"
    if cmath.isinf(v):
        return "inf" if v > 0 else "-inf"
    x = Fraction(float(v)) * 10**16
    return str(int(x))


def dec(rng, lo, hi, digits=3):
    """A decimal in [lo, hi] as python writes it."""
    return str(round(rng.uniform(lo, hi), digits))


def pars(rng, fam, cls):
    d = lambda lo, hi, n=3: dec(rng, lo, hi, n)
    res = lambda: rng.choice(["0.0", d(0, 0.4), d(0, 0.4, 2), d(0.3, 0.9)])
    if fam == "rel":
        return {"Linear": lambda: [d(0, 0.6), d(0, 0.6), d(0.3, 1), d(0.3, 1)], "Pickens": lambda: [rng.choice([d(0.1, 6, 2), "1.0", "2.0", "3.0"])],
                "Corey": lambda: [res(), rng.choice(["0.0", d(0, 0.3)])], "Grant": lambda: [res(), rng.choice(["0.0", d(0, 0.3)])], "FattKlikoff": lambda: [rng.choice([res(), d(0.8, 1.3)])],
                "vanGenuchtenMualem": lambda: [rng.choice([d(0.15, 0.9), "0.5", "1.0"]), rng.choice(["0.0", d(0, 0.4)]), rng.choice(["1.0", d(0.5, 1.1)]), rng.choice(["0.0", d(0, 0.4)])],
                "Verma": lambda: [d(0, 0.4), d(0.5, 1), d(0.5, 1.5), d(-2, 0.5), d(-1, 1)]}[cls]()
    P = lambda: rng.choice(["1000000.0", "1.0", d(0.5, 50000, 2), d(1000, 1000000, 1)])
    return {"Linear": lambda: [P(), d(0, 0.5), d(0.3, 1.1)], "Pickens": lambda: [P(), rng.choice([res(), d(0.01, 0.5)]), rng.choice(["1.0", d(0.95, 2)]), rng.choice([d(0.3, 4, 2), d(-2, 3, 1)])],
            "TRUST": lambda: [P(), res(), rng.choice([d(0.5, 5), d(-1, 2, 1)]), rng.choice(["0.0", d(0, 5000)]), rng.choice(["10000000.0", d(10, 100000), d(-1000, 1000)])],
            "Milly": lambda: [rng.choice([res(), d(-0.2, 0.8)])],
            "vanGenuchten": lambda: [d(0.2, 0.9), rng.choice(["0.0", d(0, 0.4)]), rng.choice([d(0.001, 0.1, 5), d(-0.01, 3, 3), "0.0005105"]), rng.choice(["10000000.0", d(10, 1000000), d(-5, 500)]),
                                     rng.choice(["1.0", d(0.5, 1.05)])]}[cls]()


def sats(rng, ps, n):
    """Saturations: anywhere, at and near the parameters, at both ends."""
    s = []
    for _ in range(n):
        k = rng.random()
        p = rng.choice(ps)
        if k < 0.35:
            x = rng.choice([p, str(round(1 - float(p), 6)), str(round(float(p) + rng.choice([-1e-3, 1e-3, 2e-6]), 6)), str(round(float(p) * 1.0005, 6)), str(round(float(p) + 0.371, 6))])
        elif k < 0.5:
            x = rng.choice(["0.0", "0.0", "1.0", "0.999", "0.9995", "0.99975", "0.5", "0.371"])
        else:
            x = dec(rng, 0, 1, rng.choice([2, 3, 5]))
        s.append(x if 0 <= float(x) <= 1 and "e" not in x else dec(rng, 0, 1, 3))
    return s


def number(rng, t):
    v = float(t)
    return int(v) if v == int(v) and rng.random() < 0.25 else v


class Life:
    def __init__(self, fam, cls, rng):
        self.fam, self.cls, self.rng, self.events, self.curve = fam, cls, rng, [], None

    def make(self, ps, default=False):
        C = getattr(FAM[self.fam], self.cls)
        vals = [float(p) for p in ps]
        kw = self.rng.random() < 0.3
        names = C.__init__.__code__.co_varnames[1:1 + len(vals)]
        r, err = guarded(lambda: C() if default else C(**dict(zip(names, vals))) if kw else C(*vals))
        self.events.append(dict(ev="make", fam=self.fam, cls=self.cls, ps=list(ps), default="1" if default else "0", err=err))
        self.curve = None if err else r
        return not err

    def set(self, ps):
        vals = [float(p) for p in ps]
        given = self.rng.choice([list, tuple, numpy.array])(vals)

        def f():
            self.curve.parameters = given
        _, err = guarded(f)
        self.events.append(dict(ev="set", ps=list(ps), err=err))
        if not err and isinstance(given, (list, numpy.ndarray)) and len(given):
            given[0] = 77.0
        self.pars()

    def pars(self):
        got, err = guarded(lambda: self.curve.parameters)
        self.events.append(dict(ev="pars", got=[str(float(x)) for x in got] if not err else [err]))
        if not err and isinstance(got, list) and self.rng.random() < 0.5:
            got[:] = [55.0]

    def about(self):
        lines = repr(self.curve).split("\n")
        self.events.append(dict(ev="about", id=self.curve.id, name=self.curve.name, lines=[x.replace("np.float64(", "").rstrip(")") if "np.float64" in x else x for x in lines]))

    def eval(self, sl, form):
        rng = self.rng
        if form == "scalar":
            x = float(sl[0])
            x = rng.choice([lambda: x, lambda: numpy.float64(x), lambda: numpy.array(x), lambda: number(rng, sl[0])])()
        else:
            v = [float(t) for t in sl]
            x = {"list": v, "tuple": tuple(v), "array": numpy.array(v), "ints": [int(t) for t in v] if all(t == int(t) for t in v) else v, "nan": [0.5, float("nan")] if rng.random() < 0.5 else float("nan"),
                 "strided": numpy.array([a for t in v for a in (t, 0.123)])[::2]}[form]
        before = repr(x)
        r, err = guarded(lambda: self.curve(x))
        e = dict(ev="eval", form=form, sl=list(sl), err="" if not err else err.split(":")[0], shape=[], got=[])
        if not err:
            e["err"] = "mutated" if repr(x) != before else ""
            if form == "scalar":
                e["got"] = [[units(a) for a in (r if isinstance(r, (tuple, list)) else [r.item() if isinstance(r, numpy.ndarray) and r.ndim == 0 else r])]]
            else:
                r = numpy.asarray(r)
                e["shape"] = list(r.shape)
                if r.ndim in (1, 2) and r.shape[-1] == len(sl):
                    e["got"] = [[units(a) for a in numpy.atleast_1d(r[..., i])] for i in range(len(sl))]
        self.events.append(e)

    def plot(self, n, bad=False):
        import matplotlib
        matplotlib.use("Agg")
        import matplotlib.pyplot as plt
        rng = self.rng
        shown = []
        was, plt.show = plt.show, lambda *a, **k: shown.append(1)
        kw = {"n": n}
        ax = None
        if rng.random() < 0.4:
            ax = kw["ax"] = plt.figure().add_subplot(1, 1, 1)
        if rng.random() < 0.5:
            kw["figsize"] = rng.choice([None, (4, 3), [5, 2], numpy.array([3.0, 4.0])])
        if rng.random() < 0.4:
            kw["plt_kws"] = rng.choice([None, {}, {"linewidth": 1}, {"color": "r"}])
        if bad:
            kw.update(rng.choice([{"n": 1}, {"n": 2.5}, {"ax": "x"}, {"figsize": 3}, {"figsize": (1, 2, 3)}, {"plt_kws": [1]}]))
        try:
            r, err = guarded(lambda: self.curve.plot(**kw))
        finally:
            plt.show = was
        e = dict(ev="plot", n=n, bad="1" if bad else "0", err=err, shown=str(len(shown)), axes="0", x=[], got=[])
        if not err:
            e["axes"] = "1" if r is not None and (ax is None or r is ax) else "0"
            lines = r.get_lines()
            if len(lines) == (2 if self.fam == "rel" else 1):
                xs = [numpy.asarray(q.get_xdata(), dtype=float) for q in lines]
                ys = [numpy.asarray(q.get_ydata()) for q in lines]
                if all(numpy.array_equal(q, xs[0]) for q in xs):
                    e["x"] = [units(a) for a in xs[0]]
                    e["got"] = [[units(a) for a in row] for row in zip(*ys)]
        plt.close("all")
        self.events.append(e)


FORMS = ["scalar", "scalar", "list", "tuple", "array", "array", "strided"]


def life(job):
    fam, cls, ps, seed, evals = job[:5]
    rng = random.Random(seed)
    numpy.seterr(all="ignore")
    w = Life(fam, cls, rng)
    default = ps is None
    now = ["0.2", "0.895", "1.259", "-1.7615", "0.5089"] if default else list(ps)
    if not w.make([] if default else ps, default):
        return w.events
    if len(job) > 5:  # the whole walk of the model, and both ends
        w.eval([str(round(i / 20, 2)) for i in range(21)], "array")
        w.eval(["0.0"], "scalar")
        w.eval(["1.0"], "scalar")
    for i in range(evals):
        k = rng.random()
        if k < 0.08:
            new = pars(rng, fam, cls)
            try:
                getattr(FAM[fam], cls)(*[float(p) for p in new])
            except Exception:
                new = now
            if rng.random() < 0.3:
                w.set(rng.choice([new[:-1], new + ["0.5"], []]))
            else:
                w.set(new)
                now = new
        elif k < 0.14:
            w.about()
        elif k < 0.18:
            w.pars()
        elif k < 0.25:
            n = rng.randint(1, 4)
            s = sats(rng, now, n)
            s[rng.randrange(n)] = rng.choice(["1.001", "-0.001", "1.5", "-2.0", "100.0"])
            w.eval(s[:1] if n == 1 else s, "scalar" if n == 1 and rng.random() < 0.8 else rng.choice(["list", "array", "nan"]))
        elif k < 0.32:
            w.plot(rng.choice([2, 3, 5, 6, 11, 21]), rng.random() < 0.25)
        elif k < 0.36:
            s = [rng.choice(["0.0", "1.0"]) for _ in range(rng.randint(1, 3))]
            w.eval(s, "ints")
        else:
            form = rng.choice(FORMS)
            w.eval(sats(rng, now, 1 if form == "scalar" else rng.randint(1, 6)), form)
    return w.events


def run(c):
    rng = c.rng
    c.mc("FixedMC", FIXED % c.quick(6, 14), name="arithmetic", workers=8)
    r = c.mc("CurvesMC", MC % (c.quick(10, 40), c.quick(0, 1)), name="curves", workers=8, timeout=800)
    jobs = [(x["fam"], x["cls"], x["ps"], rng.randrange(10**9), c.quick(4, 20), 1) for x in r.tagged("CURVE")]
    for fam, names in (("rel", REL), ("cap", CAP)):
        for cls in names:
            for _ in range(c.quick(60, 500)):
                jobs.append((fam, cls, pars(rng, fam, cls), rng.randrange(10**9), c.quick(8, 16)))
    jobs += [("rel", "Verma", None, rng.randrange(10**9), 12) for _ in range(8)]
    with multiprocessing.get_context("fork").Pool(8) as pool:
        hs = pool.map(life, jobs, chunksize=4)
    for j, h in zip(jobs, hs):
        for e in h:
            c.count(("%s_%s_" % j[:2] if e["ev"] in ("make", "eval") else "") + e["ev"] + ("_refused" if e.get("err") else ""), len(e["sl"]) if e["ev"] == "eval" else 1)
    c.sample(lambda: {"life": hs[0]})
    report(c, c.trace("CurvesTrace", None, groups=hs), ("ev", "fam", "cls", "ps", "err", "form", "sl", "got", "shape", "n", "bad", "id", "name", "lines", "shown"))
    c.assumptions += ["formulas are judged where they are defined on all of [0, 1]: residual below maximum saturation, 0 < m (van Genuchten: m < 1), positive exponents of Pickens' relative permeability",
                      "one-dimensional arrays; values agree to 1e-8 relative"]
