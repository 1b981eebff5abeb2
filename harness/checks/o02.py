"""O02: listings, SAVE files and history files."""
import os

import numpy
import toughio
from core import enc_num, guarded
from checks.o01 import observe, lines_of, number
from meshes import report

MC = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS NSteps=%d\nNRows=%d\nNVars=%d\nLengths={%s}\nDigs={%s}\nEmit=%d\n"
      "INVARIANTS Elements Connections Known Emitted\n")
NAMES = ["P", "T", "SG", "SW", "X(AIR)G", "PCAP", "DG", "DW", "PRES", "FLOH/FLOF", "ENTH", "VEL(GAS)", "K(LIQ.)", "X1", "DX1", "HEAT", "FLOW"]


def fort(x, d, w):
    """A number as Fortran writes it with Ew.d."""
    if x is None:
        return "*" * w
    if x != x:
        return "%*s" % (w, "NaN")
    s = "%.*e" % (d - 1, x)
    m, e = s.split("e")
    neg, m = m.startswith("-"), m.lstrip("-").replace(".", "")
    e = int(e) + (1 if x else 0)
    t = "%s0.%s%s" % ("-" if neg else "", m, "E%+03d" % e if abs(e) < 100 else "%+04d" % e)
    return "%*s" % (w, t)


def val(rng):
    k = rng.randrange(14)
    if k == 0:
        return None
    if k == 1:
        return float("nan")
    if k == 2:
        return rng.uniform(-1, 1) * 10.0 ** rng.choice([-250, -120, -101, -100, 99, 101])
    if k == 3:
        return 0.0
    return rng.uniform(-1, 1) * 10.0 ** rng.randint(-30, 30)


def label(rng, L, auto):
    a = "".join(rng.choice("ABCDXYZabz") for _ in range(3))
    if rng.random() < 0.2:
        a = rng.choice(["ELE", "EL", "E", "LEM", "TOT", "TIM", "INC", "GEN", "END", "ele", "KCY", "NAN", "INF", "E", "X", "EOS"]).ljust(3, rng.choice("ABE"))
    b = "".join(rng.choice("0123456789") for _ in range(L - 3))
    if rng.random() < 0.15:
        a = a[0] + " " + a[2]
    if L == 5 and rng.random() < 0.2:
        b = " " + b[1:]
    if not auto and rng.random() < 0.3:
        b = "".join(rng.choice("ABC012-+") for _ in range(L - 4)) + rng.choice("AB01")
    return "ELF" + b if (a + b).startswith("ELEM") else a + b


def labels(rng, n, L, auto):
    s = []
    while len(s) < n:
        x = label(rng, L, auto)
        if x not in s:
            s.append(x)
    return s


def listing(rng, big):
    """Lines of a listing, laid out at random."""
    L = rng.choice([5, 5, 5, 6, 7, 8, 9])
    auto = rng.random() < 0.6
    n, ne = rng.randint(1, 4 if big else 3), rng.choice([1, 2, 4, 7, 20 if big else 9])
    if big and rng.random() < 0.4:
        ne = rng.choice([45, 60, 110])
    nc = rng.choice([0, 1, 3, 8])
    lab = labels(rng, ne + 2, L, auto)
    prs = [(lab[rng.randrange(ne + 2)], lab[rng.randrange(ne + 2)]) for _ in range(nc)]
    lab = lab[:ne]
    d, gap, ind = rng.choice([4, 5, 8]), rng.choice([0, 0, 1, 2]), rng.choice([0, 1, 1, 2, 3, 5, 6])
    gap0 = rng.choice([0, 1, 3])
    tail, units = rng.random() < 0.3, rng.random() < 0.6
    iw = rng.choice([1, 2, 6, 8]) if not auto else rng.choice([5, 6, 8])
    names = {t: rng.sample(NAMES, rng.randint(1, 6)) for t in "ECX"}
    out = rng.choice([["1      @@@@@@@@@@@@"], ["", " @@@@@@@@@@@@@@"], ["   ", "@@@@@@@@@@"]])
    out += rng.sample(["  TOUGH2 IS A PROGRAM FOR", "", " MESH HAS   3 ELEMENTS", "  ELEM1 of nothing", " ELEM. list", "   TIME = 0.1E3", "@@@ note", "TOTAL of nothing"], rng.randint(0, 5))

    def head(ty):
        q = [""] if rng.random() < 0.8 else []
        q += [" " * ind + {"E": "ELEM.  INDEX", "C": "ELEM1  ELEM2   INDEX", "X": "ELEM.  INDEX"}[ty] + "".join("%*s" % (d + 9, x) for x in names[ty])]
        if units:
            q += [" " * rng.choice([11, 20, 30]) + "(PA)      (DEG-C)"]
        return q + [""] * rng.randint(0, 2)

    def rows(ty, page):
        ls = []
        keys = prs if ty == "C" else lab
        for i, k in enumerate(keys):
            if page and i and i % page == 0:
                ls += [""] * rng.randint(0, 2) + (head(ty) if rng.random() < 0.8 else [])
            v = [val(rng) for _ in names[ty]]
            v = [1.5 if a is None and (j == 0 or v[j - 1] is None) else a for j, a in enumerate(v)]
            x = ["%*s" % (iw, i + 1)] + [fort(a, d, d + 7 + gap + (gap0 if j == 0 else 0)) for j, a in enumerate(v)]
            s = " " * ind + (k[0] + "  " + k[1] if ty == "C" else k) + "".join(x)
            ls.append(s + (" " * 4 if tail else ""))
        return ls

    for i in range(n):
        t = rng.choice([rng.random() * 10.0 ** rng.randint(-2, 11), 10.0 ** i])
        out += ["", " " + "@" * 60, "   TOTAL TIME     KCYC   ITER  ITERC   KON", "   %s      %d      3      3    2" % (fort(t, 5, 11), i + 1), " " + "@" * 60, ""]
        page = rng.choice([0, 0, 1, 3, 5] if ne < 40 else [0, 5, 41, 50])
        out += head("E") + rows("E", page) + [""] * rng.randint(0, 2) + [rng.choice([" ", " ", "1"]) + "@" * rng.randint(5, 60)]
        if prs:
            out += [""] * rng.randint(0, 2) + head("C") + rows("C", page) + [" " + "@" * 60]
        if rng.random() < 0.5:
            out += head("X") + rows("X", page) + [" " + "@" * 60]
        out += rng.sample(["", " ...ITERATING... AT [  1,  1]", "  A1  5(   1,  3) ST = 0.1000E+01 DT = 0.1E+01", "ELEM. text"], rng.randint(0, 3))
    return dict(lines=out, L=L, auto=auto, labels=lab, conn=bool(prs))


def save(rng):
    """Lines of a SAVE file."""
    L, nv, n = rng.choice([5, 5, 6, 7, 8, 9]), rng.choice([1, 2, 3, 4, 4, 5, 8]), rng.choice([1, 2, 5, 12])
    lab = [x for x in labels(rng, n, L, True)]
    how = rng.random()
    out = [rng.choice(["INCON -- INITIAL CONDITIONS FOR %5d ELEMENTS AT TIME  0.259200E+08" % n, "INCON", "INCON----1----*----2----*"])]
    cols = {5: (5, 5), 6: (5, 4), 7: (4, 4), 8: (4, 3), 9: (3, 3)}[L]
    style = rng.randrange(2)

    def txt(x, d, w):
        return fort(x, d, w) if style else "%*.*e" % (w, d - 1, x)

    def v(d):
        x = float("%.*e" % (d - 1, rng.uniform(-1, 1) * 10.0 ** rng.choice([0, 5, -8, 6, 2, -99, -120])))
        return 0.0 if rng.random() < 0.1 else x

    for k in lab:
        s = k + " " * (15 - L)
        if rng.random() < 0.2:
            s = k + "%*d%*d" % (cols[0], rng.randint(1, 99), cols[1], rng.randint(1, 9))
        por = how < 0.6 or (how < 0.8 and rng.random() < 0.5)
        s += txt(round(rng.random(), 6), 8, 15) if por else " " * 15
        if rng.random() < (0.5 if how > 0.4 else 0.0):
            s += "".join(("%10.2e" % v(3)) if rng.random() < 0.8 else " " * 10 for _ in range(rng.randint(1, 5)))
        out.append(s.rstrip() if rng.random() < 0.3 else s)
        x = [txt(v(13), 13, 20) for _ in range(nv)]
        out += ["".join(x[:4])] + (["".join(x[4:])] if nv > 4 else [])
    out += rng.choice([["+++", "    1    3    2 0.00000000E+00 0.10000000E+04"], ["+++", "", ""], [""], ["", ""]])
    return dict(lines=out, L=L, nv=nv, labels=lab)


def put(path, lines, rng):
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")


def read_save(c, rng, evs, d):
    put("SAVE", d["lines"], rng)
    e = dict(ev="save", lines=lines_of("SAVE"), L=d["L"], nv=d["nv"], order=[], data={}, labels=[], kind=[], time="?")
    kw = {}
    k = rng.randrange(8)
    if k < 4:
        o = rng.sample(d["labels"], len(d["labels"]))
        if k == 1:
            o = o[:-1] + ["ZZZ99"]
        elif k == 2:
            o = o + ["ZZZ99"]
        kw["labels_order"] = rng.choice([list, tuple, numpy.array])(o)
        e["order"] = o
    r, e["err"] = guarded(lambda: toughio.read_output("SAVE", **kw))
    if r is not None:
        r = r[0] if isinstance(r, list) and len(r) == 1 else r
        try:
            e["kind"], e["time"], e["labels"] = [r.type, r.format], enc_num(r.time), [str(x) for x in r.labels]
            e["data"] = {k: [[enc_num(x) for x in numpy.ravel(row)] for row in v] for k, v in r.data.items()}
        except Exception as x:
            e["err"] = "result: %s" % x
    evs.append(e)
    c.count("save")


def history(c, rng, evs):
    n, k = rng.randint(1, 8), rng.randint(1, 6)
    names = rng.sample(["PRES", "TEMP", "SAT_G", "GEN", "ENTG", "PWB", "X1", "FLOW(G)", "P [Pa]" if False else "P[Pa]"], k)
    csv = rng.random() < 0.6
    if csv:
        names = [x if rng.random() < 0.8 else x + " b" for x in names]
        w = rng.choice([0, 15, 22])
        ls = [",".join('"%*s"' % (w, x) for x in ["TIME [sec]"] + names)]
    else:
        w = 22
        ls = [" " * rng.randint(0, 3) + "".join("%-18s" % x for x in [rng.choice(["TIME", "TIME(S)"])] + names)]
    d = rng.choice([3, 8, 13])
    for i in range(n):
        row = [fort(float("%.*e" % (d - 1, x)), d, w) if rng.random() < 0.9 else "%*.*e" % (w, d - 1, x)
               for x in [i * 1e5] + [rng.uniform(-1, 1) * 10.0 ** rng.choice([0, 6, -9, -105, 12]) for _ in names]]
        ls.append(("," if csv else " ").join(row))
    put("h.csv", ls, rng)
    if rng.random() < 0.3:
        with open("h.csv", "a") as f:
            f.write("\n")
    e = dict(ev="history", lines=lines_of("h.csv"), data={})
    r, e["err"] = guarded(lambda: toughio.read_history("h.csv"))
    if r is not None:
        e["data"] = {k: [enc_num(x) for x in v] for k, v in r.items()}
    evs.append(e)
    c.count("history")


def read_list(c, rng, evs, d, conn, L, auto):
    put("OUTPUT", d["lines"], rng)
    e = dict(ev="list", lines=lines_of("OUTPUT"), ty="connection" if conn else "element", L=L, order=[])
    kw = dict(connection=True) if conn or rng.random() < 0.0 else {}
    if not auto or rng.random() < 0.25:
        kw["label_length"] = L
    if d.get("labels") and rng.random() < 0.25:
        o = rng.sample(d["labels"], len(d["labels"]))
        k = rng.randrange(6)
        if k == 0:
            o = o[:-1] + ["ZZZ99"]
        elif k == 1:
            o = o + ["ZZZ99"]
        kw["labels_order"] = rng.choice([list, tuple, numpy.array])(o)
        e["order"] = o
    observe(e, lambda: toughio.read_output("OUTPUT", **kw))
    evs.append(e)
    c.count("listing_connections" if conn else "listing_elements")


def run(c):
    rng = c.rng
    r = c.mc("ListingMC", MC % (2, 3, 2, "5, 7", "3", 1), name="small listings", timeout=800)
    if c.tier == "thorough":
        c.mc("ListingMC", MC % (3, 4, 4, "5, 6, 9", "3, 6", 0), name="larger listings", workers=8, timeout=800)
    lists = r.tagged("LIST")
    evs = []
    for d in rng.sample(lists, min(len(lists), c.quick(160, 1500))):
        read_list(c, rng, evs, d, d["conn"] and rng.random() < 0.5, d["L"], True)
        if not d["conn"] and rng.random() < 0.2:
            read_list(c, rng, evs, d, True, d["L"], True)
    for i in range(c.quick(110, 900)):
        d = listing(rng, i % 8 == 0)
        read_list(c, rng, evs, d, False, d["L"], d["auto"])
        if d["conn"] or rng.random() < 0.3:
            read_list(c, rng, evs, d, True, d["L"], d["auto"])
    for i in range(c.quick(120, 900)):
        read_save(c, rng, evs, save(rng))
        history(c, rng, evs)
    _, err = guarded(lambda: toughio.read_history(3))
    evs.append(dict(ev="refuse", err=err))
    c.sample(lambda: {"listing": evs[0]["lines"][:12]})
    report(c, c.trace("ListingTrace", evs), ("err", "ev", "ty", "L", "nv", "order", "lines", "read", "data", "kinds"))
    c.assumptions += ["labels of a listing do not start with ELEM and have exactly the label length; without label_length, labels end with digits and a blank follows",
                      "the two labels of a connection are two blanks apart; a listing is complete"]
