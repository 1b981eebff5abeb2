"""M11: mesh files written by other programs."""
import os
import struct

import numpy
import toughio
from core import guarded
from checks.m07 import dress, obs, random_mesh
from meshes import report

MC = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS NCells=%d\nNData=%d\nEmit=%d\nINVARIANTS Inverse Emitted\n"
NAME = {"tecplot": ["a.dat", "a.tec", "A.TEC"], "avsucd": ["a.inp", "a.avs"], "flac3d": ["a.f3grid"]}
TEC = {"triangle": "TRIANGLE", "quad": "QUADRILATERAL", "tetra": "TETRAHEDRON", "hexahedron": "BRICK"}
AVS = {"triangle": "tri", "quad": "quad", "tetra": "tet", "pyramid": "pyr", "wedge": "prism", "hexahedron": "hex", "line": "line", "vertex": "pt"}
AVSORD = {"vertex": [0], "line": [0, 1], "triangle": [0, 1, 2], "quad": [0, 1, 2, 3], "tetra": [0, 1, 3, 2], "pyramid": [4, 0, 1, 2, 3],
          "wedge": [3, 4, 5, 0, 1, 2], "hexahedron": [4, 5, 6, 7, 0, 1, 2, 3]}
FLACORD = {"triangle": [0, 1, 2], "quad": [0, 1, 2, 3], "tetra": [0, 1, 2, 3], "pyramid": [0, 1, 4, 2, 3],
           "wedge": [0, 1, 3, 2, 4, 5], "hexahedron": [0, 1, 4, 2, 3, 6, 7, 5]}
FLAC = {"triangle": "T3", "quad": "Q4", "tetra": "T4", "pyramid": "P5", "wedge": "W6", "hexahedron": "B8"}


def number(rng, x, ints=True):
    if x == int(x) and ints and abs(x) < 1e6 and rng.random() < 0.5:
        return "%d" % x
    return rng.choice(["%.6e", "%.14E", "%.8e", "%+.5E", "%.12g", "%r"]) % float(x)


def value(rng):
    return rng.choice([0.0, 1.0, -2.0, float(rng.randint(-99, 99)), rng.uniform(-1, 1) * 10.0 ** rng.randint(-20, 20), rng.uniform(0, 1)])


def cells_of(rng, kinds, n=12):
    """Points and cells of a random mesh, only of some kinds."""
    while True:
        m = random_mesh(rng, "")
        cells = [(b.type, [int(x) for x in r]) for b in m.cells for r in b.data if b.type in kinds]
        if cells:
            if rng.random() < 0.5:
                rng.shuffle(cells)
            return m.points, cells[:n if rng.random() < 0.8 else 150]


def wrap(rng, toks, most=9):
    out = []
    w = rng.choice([1, 3, 5, most, 0])
    while toks:
        k = w or rng.randint(1, most)
        out.append(rng.choice(["", " ", "  "]) + rng.choice([" ", "  ", "   "]).join(toks[:k]) + rng.choice(["", " "]))
        toks = toks[k:]
        if rng.random() < 0.04:
            out.append("")
    return out


def tecplot(rng):
    kind = rng.choice(list(TEC))
    pts, cells = cells_of(rng, {kind})
    n, e, d = len(pts), len(cells), pts.shape[1] if rng.random() < 0.8 else 2
    cap = rng.random() < 0.75
    xyz = list("XYZ" if cap else "xyz")[:d]
    names = xyz + rng.sample(["P", "T(deg)", "gas sat", "DX_1", "k-x", "u v w", "M"], rng.randint(0, 5))
    if rng.random() < 0.3:
        rng.shuffle(names)
    block = rng.random() < 0.65
    cc = sorted(i for i in range(len(names)) if names[i] not in xyz and rng.random() < 0.6) if block else []
    how = rng.choice(["range", "list", "each", "ranges"])
    if cc == list(range(len(names) - len(cc), len(names))) and rng.random() < 0.4:
        how = "nv"
    # header
    K = (lambda s: s) if rng.random() < 0.7 else (lambda s: s.lower())
    q = rng.random() < 0.75 or any(" " in x or "(" in x for x in names)
    vn = ['"%s"' % x if q else x for x in names]
    out = []
    if rng.random() < 0.4:
        out += rng.sample(["# made by another program", "", "#", "  # ZONE N=3"], rng.randint(1, 3))
    if rng.random() < 0.5:
        out.append(K("TITLE") + rng.choice([' = "a title"', '="ZONE of VARIABLES"', '= "x, y = z"']))
    eq = lambda: rng.choice(["=", " = ", "= ", " ="])
    if q and rng.random() < 0.3:
        out.append(K("VARIABLES") + eq() + vn[0])
        out += vn[1:]
    else:
        out.append(rng.choice(["", " "]) + K("VARIABLES") + eq() + rng.choice([", ", " ", ","]).join(vn))
    ents = []
    if rng.random() < 0.5:
        ents.append("T" + eq() + '"%s"' % rng.choice(["zone 1", "E=4, N = 7", "0.1E+04 SEC", "F=POINT", "a (b)"]))
    if rng.random() < 0.5:
        ents += ["%s%s%d" % (a, eq(), b) for a, b in ((rng.choice(["N", "NODES"]), n), (rng.choice(["E", "ELEMENTS"]), e))]
        ents += ["F" + eq() + K("FEBLOCK" if block else "FEPOINT"), "ET" + eq() + K(TEC[kind])]
    else:
        ents += ["%s%s%d" % (a, eq(), b) for a, b in ((rng.choice(["N", "NODES"]), n), (rng.choice(["E", "ELEMENTS"]), e))]
        ents += ["DATAPACKING" + eq() + K("BLOCK" if block else "POINT"), "ZONETYPE" + eq() + K("FE" + TEC[kind])]
    if cc and how == "nv":
        ents.append("NV" + eq() + str(len(names) - len(cc)))
    elif cc:
        N, C = K("NODAL"), K("CELLCENTERED")
        nd = [i for i in range(len(names)) if i not in cc]
        lst = lambda x: "[" + ",".join(str(i + 1) for i in x) + "]"
        def runs(x):
            r = []
            for i in x:
                if r and r[-1][1] == i - 1:
                    r[-1][1] = i
                else:
                    r.append([i, i])
            return ["[%d]" % (a + 1) if a == b else "[%d-%d]" % (a + 1, b + 1) for a, b in r]
        s = rng.choice([" = ", "="])
        if how == "each":
            v = ", ".join(C if i in cc else N for i in range(len(names)))
        elif how == "list":
            v = ", ".join(([lst(nd) + s + N] if rng.random() < 0.4 else []) + [lst(cc) + s + C])
        elif how == "ranges":
            v = ", ".join(x + s + y for x, y in sorted([(x, N) for x in runs(nd)] + [(x, C) for x in runs(cc)]))
        else:
            v = ", ".join(x + s + C for x in runs(cc))
        ents.append("VARLOCATION" + eq() + "(" + v + ")")
    if rng.random() < 0.4:
        last = ents.pop()
        rng.shuffle(ents)
        ents.append(last)
    elif rng.random() < 0.4:
        rng.shuffle(ents)
    ents = [K(x.split("=")[0]) + "=" + x.split("=", 1)[1] for x in ents]
    lines, cur = [], K("ZONE") + " "
    sep = rng.choice([", ", " ", ","])
    for i, x in enumerate(ents):
        if i and rng.random() < 0.25:
            lines.append(cur)
            cur = rng.choice(["", ", ", "  "]) + x
        else:
            cur += (sep if i else "") + x
    lines.append(cur)
    out += lines
    # data
    txt = [[number(rng, value(rng)) for _ in range(e if i in cc else n)] for i in range(len(names))]
    for k, x in enumerate(xyz):
        txt[names.index(x)] = [number(rng, p[k]) for p in pts]
    if block:
        if rng.random() < 0.5:
            out += wrap(rng, [t for col in txt for t in col])
        else:
            for col in txt:
                out += wrap(rng, col)
    else:
        out += ["  ".join(col[r] for col in txt) for r in range(n)]
    if rng.random() < 0.2:
        out.append("")
    out += [" ".join(str(x + 1) for x in c) for _, c in cells]
    if rng.random() < 0.2:
        out += ["", ""]
    return out


def ids(rng, n):
    k = rng.randrange(4)
    if k == 0:
        return list(range(1, n + 1))
    if k == 1:
        return [10 * i + 5 for i in range(n)]
    if k == 2:
        return list(range(n, 0, -1))
    return rng.sample(range(1, 5 * n + 1), n)


def avsucd(rng):
    pts, cells = cells_of(rng, set(AVS))
    if rng.random() < 0.2:
        cells += [("vertex", [0])]
    if pts.shape[1] == 2:
        pts = numpy.column_stack((pts, numpy.zeros(len(pts))))
    pid, cid = ids(rng, len(pts)), ids(rng, len(cells))
    size = lambda: [rng.choice([1, 1, 1, 2, 3]) for _ in range(rng.choice([0, 0, 1, 2, 3]))]
    ps, cs = size(), size()
    out = ["# remark %d" % i for i in range(rng.choice([0, 0, 1, 3]))]
    out.append("%d %d %d %d%s" % (len(pts), len(cells), sum(ps), sum(cs), rng.choice(["", " 0", "  0 "])))
    ind = rng.choice(["", " ", "   "])
    out += [ind + "%d " % i + " ".join(number(rng, x) for x in p) for i, p in zip(pid, pts)]
    mats = [rng.choice([0, 1, 7, 30]) for _ in cells]
    out += [ind + "%d %d %s " % (i, m, AVS[t]) + " ".join(str(pid[c[k]]) for k in AVSORD[t]) for i, m, (t, c) in zip(cid, mats, cells)]
    names = ["P", "T", "gas sat", "DX_1", "k-x", "u v"]
    for s, idl in ((ps, pid), (cs, cid)):
        if not s:
            continue
        out.append("%d " % len(s) + " ".join(map(str, s)))
        out += [x + rng.choice([", Pa", ",", "", ", m / s", " , none"]) for x in rng.sample(names, len(s))]
        rows = ["%s%d " % (ind, i) + "  ".join(number(rng, value(rng)) for _ in range(sum(s))) for i in idl]
        if rng.random() < 0.4:
            rng.shuffle(rows)
        out += rows
    return out


def flac3d(rng, plain=False):
    pts, cells = cells_of(rng, set(FLAC))
    if pts.shape[1] == 2:
        pts = numpy.column_stack((pts, numpy.zeros(len(pts))))
    d3 = [c for c in cells if c[0] not in ("triangle", "quad")]
    d2 = [c for c in cells if c[0] in ("triangle", "quad")]
    pid = ids(rng, len(pts))
    out = ["* FLAC3D grid", "* made by another program"] if not plain and rng.random() < 0.8 else []
    gap = lambda: [""] if not plain and rng.random() < 0.15 else []
    out += ["* GRIDPOINTS"] + ["G %d " % i + " ".join(number(rng, x) for x in p) for i, p in zip(pid, pts)] + gap()
    slot = rng.choice(["", " SLOT 1", " SLOT Default", ' SLOT "a"'])
    for flag, cs, groups in (("Z", d3, ["rock", "cap rock", "B1", "x-1", "a  b"]), ("F", d2, ["top", "rock", "side 2", "x   y"])):
        cid = ids(rng, len(cs))
        if cs or rng.random() < 0.5:
            out.append("* " + {"Z": "ZONES", "F": "FACES"}[flag])
        for i, (t, c) in zip(cid, cs):
            o = FLACORD[t]
            n = [c[o.index(k)] for k in range(len(o))]
            ty = FLAC[t]
            if t == "hexahedron" and rng.random() < 0.15:
                n, ty = n[:7], "B7"
            out.append("%s %s %d " % (flag, ty, i) + " ".join(str(pid[k]) for k in n))
        out += gap()
        k = rng.choice([0, 1, 2, 3])
        names = rng.sample(groups, min(k, len(groups)))
        of = [rng.randrange(len(names) + (rng.random() < 0.3)) if names else 0 for _ in cid]
        if names and cs and rng.random() < 0.7:
            out.append("* %s GROUPS" % {"Z": "ZONE", "F": "FACE"}[flag])
        for j, nm in enumerate(names):
            mine = [i for i, g in zip(cid, of) if g == j]
            if not mine:
                continue
            rng.shuffle(mine)
            halves = [mine] if rng.random() < 0.8 or len(mine) < 2 else [mine[:1], mine[1:]]
            for h in halves:
                qn = '"%s"' % nm if " " in nm or rng.random() < 0.6 else nm
                out.append(flag + "GROUP " + qn + slot)
                w = rng.choice([1, 4, 20])
                while h:
                    out.append(" " + " ".join(map(str, h[:w])))
                    h = h[w:]
    return out


def binary(lines):
    """The same grid in the binary format."""
    g, cells, groups = [], {"Z": [], "F": []}, {"Z": [], "F": []}
    for line in lines:
        w = line.split()
        if not w or w[0] == "*":
            continue
        if w[0] == "G":
            g.append((int(w[1]), [float(x) for x in w[2:]]))
        elif w[0] in "ZF":
            cells[w[0]].append((int(w[2]), [int(x) for x in w[3:]]))
        elif w[0] in ("ZGROUP", "FGROUP"):
            name = line.split('"')[1] if w[1].startswith('"') else w[1]
            slot = line.split("SLOT")[1].strip().strip('"') if "SLOT" in line else ""
            groups[w[0][0]].append((name, slot, []))
        else:
            last[2].extend(int(x) for x in w)
        if w[0] in ("ZGROUP", "FGROUP"):
            last = groups[w[0][0]][-1]
    b = struct.pack("<2I", 1375135718, 3) + struct.pack("<I", len(g))
    for i, p in g:
        b += struct.pack("<I3d", i, *p)
    for flag in "ZF":
        b += struct.pack("<I", len(cells[flag]))
        for i, n in cells[flag]:
            b += struct.pack("<2I%dI" % len(n), i, len(n), *n)
        b += struct.pack("<I", len(groups[flag]))
        for name, slot, m in groups[flag]:
            a, s = name.encode(), slot.encode()
            b += struct.pack("<H%dsH%dsI%dI" % (len(a), len(s), len(m)), len(a), a, len(s), s, len(m), *m)
    return b


def read(rng, fmt, lines, ev="read", data=None):
    name = rng.choice(NAME[fmt])
    ff = fmt if name.split(".")[-1].lower() in ("inp", "avs") or rng.random() < 0.2 else None
    if data is None:
        with open(name, "w") as f:
            f.write("\n".join(lines) + rng.choice(["\n", "\n", ""]))
    else:
        with open(name, "wb") as f:
            f.write(data)

    def call():
        return obs(toughio.read_mesh(name, file_format=ff))
    r, err = guarded(call, timeout=5)
    os.remove(name)
    return dict(ev=ev, fmt=fmt, lines=lines, n=r or {}, err=err)


def refusals(c, rng, evs):
    for _ in range(c.quick(25, 150)):
        t = tecplot(rng)
        i = next(i for i, x in enumerate(t) if x.strip().upper().startswith("ZONE"))
        k = rng.randrange(4)
        full = [x for x in t if x.strip()]
        if k == 0:
            # cut off: at the header, in the data or in the cells
            t = full[:rng.randint(1, len(full) - 1)]
        elif k == 1:
            t = t[:i] + ["ZONE I=3, J=2, K=1, F=POINT"] + [x for x in full if x.split()[0][-1].isdigit() and x.split()[0][0] in "-+.0123456789"]
        elif k == 2:
            t = t[:i] + ["ZONE T=\"no size\", F=FEPOINT, ET=BRICK"] + full[-2:]
        else:
            t = ['VARIABLES = "A", "B"'] + ["ZONE N=1, E=1, F=FEPOINT, ET=TRIANGLE", "1.0 2.0", "1 1 1"]
        evs.append(read(rng, "tecplot", t, "refuse"))
        a = avsucd(rng)
        evs.append(read(rng, "avsucd", a[:rng.randint(1, len(a) - 1)], "refuse"))
        f = binary(flac3d(rng, True))
        evs.append(read(rng, "flac3d", [], "refuse", f[:rng.randint(9, len(f) - 1)]))
        c.count("refusals", 3)


def run(c):
    rng = c.rng
    r = c.mc("MeshReadMC", MC % (1, 2, 1), name="single cells in every style", workers=8)
    r2 = c.mc("MeshReadMC", MC % (2, c.quick(1, 2), 1), name="pairs of cells in every style", workers=8, timeout=800)
    evs = []
    files = r.tagged("FILE") + r2.tagged("FILE")
    for x in rng.sample(files, min(len(files), c.quick(500, 4000))):
        evs.append(read(rng, x["fmt"], x["lines"]))
        c.count("model_files")
    W = {"tecplot": tecplot, "avsucd": avsucd, "flac3d": flac3d}
    for _ in range(c.quick(420, 3500)):
        fmt = rng.choice(list(W))
        lines = W[fmt](rng)
        evs.append(read(rng, fmt, lines))
        c.count(fmt)
    for _ in range(c.quick(80, 600)):
        lines = flac3d(rng, True)
        evs.append(read(rng, "flac3d", lines, "binary", binary(lines)))
        c.count("binary")
    refusals(c, rng, evs)
    c.sample(lambda: {"lines": evs[-200]["lines"][:12]})
    report(c, c.trace("MeshReadTrace", evs), ("err", "ev", "fmt", "lines"))
    c.assumptions += ["Tecplot: first zone, no repeated values (5*1.0), entries known to the reader; one cell per line; FLAC3D: a cell is in one group at most"]
