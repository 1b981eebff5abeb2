"""O01: tables of simulation results."""
import copy
import os

import numpy
import toughio
from core import enc_num, guarded
from meshes import report

MC = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS NSteps=%d\nNRows=%d\nNVars=%d\nNTimes=%d\nRich=%d\nEmit=%d\n"
      "INVARIANTS Back Known Turn Idem Emitted\n")
NAMES = ["P", "T", "PRES", "TEMP", "SAT_G", "X_WATER_L", "X_CO2 gas", "DEN_G", "rate of flow", "ELEM_T", "ELEMENT", "TIME", "k(z)", "DT*",
         "a", "MOLE_FRACTION_OF_NaCl", "VOLUMETRIC HEAT CAPACITY", "x1", "1", "PCAP-GL", "HEAT", "ROCK'S"]
EXT = {"csv": ["csv"], "petrasim": ["csv", "dat"], "tecplot": ["tec", "dat"]}


def number(rng):
    """A number whose shortest text does not end with 5 (no ties of rounding at any precision)."""
    while True:
        x = any_number(rng)
        if not (enc_num(x).split("E")[0].endswith("5") and len("%r" % x) > 8):
            return x


def any_number(rng):
    k = rng.randrange(12)
    if k == 0:
        return 0.0
    if k == 1:
        return rng.choice([float("nan"), float("inf"), float("-inf")])
    if k == 2:
        return rng.uniform(-1, 1) * 10.0 ** rng.choice([-300, -150, -101, -100, -99, 99, 100, 101, 300])
    if k == 3:
        return float(rng.randint(-10**6, 10**6))
    if k == 4:
        return float("9.99999999999996e%d" % rng.randint(-9, 9))
    if k == 5:
        return rng.uniform(-1, 1) * 10.0 ** rng.randint(-20, 20)
    return float("%.*e" % (rng.randint(0, 11), rng.uniform(-1, 1) * 10.0 ** rng.randint(-20, 20)))


def label(rng):
    k = rng.randrange(8)
    if k == 0:
        return rng.choice(["TIME1", "TIME9", "ELEM1", "ELEM", "12345", "A  01", "1.0e5", "TIME 1", "INCON", "A-B+1", "abc d"])
    n = rng.choice([5, 5, 5, 6, 7, 8, 9, 3])
    return "".join(rng.choice("ABCXYZabz") for _ in range(3)) + "".join(rng.choice("0123456789") for _ in range(n - 3))


def some_labels(rng, n):
    s = []
    while len(s) < n:
        x = label(rng)
        if x not in s:
            s.append(x)
    return s


def table(rng, fmt, big=False):
    """Outputs of several steps and whether they have labels that a reader may order."""
    Output = toughio.Output
    ty = "connection" if fmt == "csv" and rng.random() < 0.3 else "element"
    n, k = rng.choice([1, 1, 2, 3, 5, 12] if big else [1, 2, 3]), rng.choice([1, 2, 3, 5, 8])
    if big and rng.random() < 0.06:
        n, k = rng.choice([(1, 130), (3, 60), (25, 4), (105, 2)])
    names = rng.sample(NAMES, rng.randint(1, 5))
    if fmt == "tecplot":
        names = [x for x in names if x not in ("x1",)] + ["X", "Y"] + (["Z"] if rng.random() < 0.6 else [])
    elif rng.random() < 0.5:
        names += rng.sample(["X", "Y", "Z"], rng.randint(1, 3))
    if rng.random() < 0.7:
        rng.shuffle(names)
    L = some_labels(rng, k)
    if ty == "connection":
        pool = some_labels(rng, 6)
        L = [tuple(rng.sample(pool, 2)) for _ in range(k)]
    ts = set()
    while len(ts) < n:
        t = rng.choice([float("%.7g" % (rng.random() * 10.0 ** rng.randint(-3, 12))), float(rng.randint(0, 10**6)), rng.random() * 10.0 ** rng.randint(0, 9)])
        if not (enc_num(t).split("E")[0].endswith("5") and len("%r" % t) > 8):
            ts.add(t)
    ts = sorted(ts)
    if rng.random() < 0.15:
        ts[0] = -ts[0]
    if rng.random() < 0.2:
        rng.shuffle(ts)
    if rng.random() < 0.15:
        ts[0] = 0.0
    if fmt != "petrasim" and rng.random() < 0.1:
        ts[-1] = ts[0]
    if fmt == "csv" and n == 1 and rng.random() < 0.4:
        ts = [None]
    same = rng.random() < 0.7
    ints = {x: rng.random() < 0.1 for x in names}
    outs = []
    for t in ts:
        lab = L if same else rng.sample(L, k)
        data = {x: numpy.array([rng.randint(-99, 10**6) if ints[x] else number(rng) for _ in lab]) for x in names}
        lab = lab if rng.random() < 0.3 else numpy.array(lab)
        if t is not None and t == int(t) and rng.random() < 0.3:
            t = rng.choice([int, numpy.float64])(t)
        outs.append(Output(ty, rng.choice([fmt, "tough", "csv"]), t, lab, data))
    return outs


def steps(outs):
    r = []
    for o in outs:
        lab = [] if o.labels is None or numpy.ndim(o.labels) == 0 else [str(x) for x in o.labels] if numpy.ndim(o.labels) == 1 else [[str(y) for y in x] for x in o.labels]
        names = list(o.data)
        rows = [[enc_num(x) for x in row] for row in zip(*[list(o.data[x]) for x in names])]
        r.append(dict(t=enc_num(o.time), labels=lab, names=names, rows=rows))
    return r


def given(outs):
    return dict(ty=outs[0].type, steps=steps(outs))


def observe(e, fn):
    r, e["err"] = guarded(fn)
    e["read"], e["kinds"] = [], []
    if r is not None and not e["err"]:
        try:
            r = r if isinstance(r, list) else [r]
            e["kinds"] = [[o.type, o.format] for o in r]
            e["read"] = steps(r)
        except Exception as x:
            e["err"] = "result: %s: %s" % (type(x).__name__, x)
    return r


def lines_of(path):
    with open(path) as f:
        return f.read().split("\n")


def orders(c, rng, evs, path, outs):
    lab = [str(x) for x in outs[0].labels] if outs and outs[0].labels is not None and numpy.ndim(outs[0].labels) == 1 else ["A", "B"]
    k = rng.randrange(6)
    o = rng.sample(lab, len(lab))
    if k == 0:
        o = o[:-1] or ["AAAAA", "AAAAB"]
    elif k == 1:
        o = o + ["ZZZ77"]
    elif k == 2:
        o[rng.randrange(len(o))] = "ZZZ77"
    arg = rng.choice([list, tuple, numpy.array])(o)
    e = dict(ev="order", lines=lines_of(path), order=o)
    observe(e, lambda: toughio.read_output(path, labels_order=arg))
    evs.append(e)
    c.count("labels_order_refused" if e["err"] else "labels_order")


def run(c):
    rng = c.rng
    r = c.mc("TablesMC", MC % (2, 2, 2, 3, c.quick(0, 1), 1), name="small tables", timeout=800)
    if c.tier == "thorough":
        c.mc("TablesMC", MC % (3, 3, 4, 4, 2, 0), name="larger tables", workers=8, timeout=800)
    files = r.tagged("FILE")
    pick = rng.sample(files, min(len(files), c.quick(350, 3000)))
    evs = []
    for d in pick:
        path = "foreign.txt"
        with open(path, "w") as f:
            f.write("\n".join(d["lines"]) + ("\n" if rng.random() < 0.9 else ""))
        e = dict(ev="read", lines=lines_of(path))
        outs = observe(e, lambda: toughio.read_output(path))
        evs.append(e)
        c.count("foreign_" + d["fmt"])
        if rng.random() < 0.25 and outs:
            orders(c, rng, evs, path, outs)
    for i in range(c.quick(260, 2500)):
        fmt = rng.choice(["csv", "petrasim", "tecplot"])
        outs = table(rng, fmt, i % 6 == 0)
        g = given(outs)
        was = repr(outs)
        arg = outs if rng.random() < 0.7 else tuple(outs)
        if len(outs) == 1 and rng.random() < 0.6:
            arg = outs[0]
        path = "w." + rng.choice(EXT[fmt])
        e = dict(ev="write", fmt=fmt, given=g, lines=[])
        _, e["werr"] = guarded(lambda: toughio.write_output(path, arg, file_format=fmt))
        e["changed"] = "0" if repr(outs) == was else "1"
        back = None
        if not e["werr"]:
            e["lines"] = lines_of(path)
            back = observe(e, lambda: toughio.read_output(path))
        else:
            e.update(err="", read=[], kinds=[])
        evs.append(e)
        c.count("written_" + fmt)
        if back and not e["err"] and rng.random() < 0.4:
            orders(c, rng, evs, path, back)
        if os.path.exists(path):
            os.remove(path)
    # files that are none of these, and calls that must be refused
    base = [["", " hello"], ["hello"], ["ELEMX,P", "", "AAA00,1.0"], ["P,T"], ["MESHMAKER"], ["@@@@@"], ["ROCKS----1"], ["", "INCON"], ["", ""], ["1 @@@@@"], ["1.0,AAA00,2"],
            ["\"X\",\"ELEM\"", "", "1.0,AAA00"], ["", "TIME [sec],ELEM,INDEX"]]
    for ls in base:
        with open("k.txt", "w") as f:
            f.write("\n".join(ls) + "\n")
        e = dict(ev="kind", lines=lines_of("k.txt"), kind=[])
        q, e["err"] = guarded(lambda: toughio.read_output("k.txt"))
        if q:
            q = q[0] if isinstance(q, list) else q
            e["kind"] = [q.type, q.format]
        evs.append(e)
        c.count("unknown_file")
    os.remove("k.txt")
    outs = table(rng, "csv")
    Output = type(outs[0])
    flat = Output("element", "csv", 1.0, ["AAA00"], {"P": numpy.array([1.0])})
    onlyx = Output("element", "csv", 1.0, ["AAA00"], {"P": numpy.array([1.0]), "X": numpy.array([1.0])})
    for a, kw in [((3, outs), {}), (("f.csv", {"a": 1}), {}), (("f.csv", outs + [1]), {}), (("f.csv", None), {}), (("f.zzz", outs), {}), (("f.csv", outs), dict(file_format="zzz")),
                  (("f.tec", flat), dict(file_format="tecplot")), (("f.tec", onlyx), dict(file_format="tecplot")), (("f.csv", outs), dict(file_format="tough")), ((None, outs), dict(file_format="csv"))]:
        for f in ("f.csv", "f.zzz", "f.tec"):
            if os.path.exists(f):
                os.remove(f)
        _, err = guarded(lambda: toughio.write_output(*a, **kw))
        evs.append(dict(ev="refuse", err=err, touched="1" if any(os.path.exists(f) for f in ("f.csv", "f.zzz", "f.tec")) else "0", call=repr(a)[:60] + repr(kw)))
        c.count("refused_call")
    toughio.write_output("g.csv", flat)
    for a, kw in [((3,), {}), (("g.csv",), dict(labels_order="AAA00")), (("g.csv",), dict(labels_order=3)), ((None,), {}), (("g.csv",), dict(labels_order={"AAA00": 0}))]:
        _, err = guarded(lambda: toughio.read_output(*a, **kw))
        evs.append(dict(ev="refuse", err=err, touched="0", call=repr(a)[:60] + repr(kw)))
        c.count("refused_call")
    c.sample(lambda: {"foreign": pick[0]["lines"][:4]})
    report(c, c.trace("TablesTrace", evs), ("err", "werr", "fmt", "lines", "given", "order", "call", "read", "kinds"))
    c.assumptions += ["all steps of an output have the same variables and number of rows, at least one of each", "names without commas, quotes or equal signs; labels without leading or trailing blanks",
                      "times of a PetraSim output are distinct; connection outputs are written as csv only"]
