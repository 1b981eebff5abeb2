"""C02: toughio-extract and toughio-export."""
import contextlib
import io
import os
import shutil

import meshio
import numpy
import toughio
from core import enc_num, guarded
from checks.m07 import vals
from checks.o01 import lines_of
from checks.o02 import NAMES, fort, labels
from meshes import build, report

MC = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS N=%d\nNSteps=%d\nMode=\"%s\"\nLen1=%d\nEmit=%d\n"
      "INVARIANTS Placed Filled Numbers Emitted\n")
VARS = ["P", "T", "PRES", "SAT_G", "X_WATER_L", "TEMP", "X1", "PCAP-GL", "DT"]


def put(path, lines):
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")


def content(d):
    r = {}
    for n in os.listdir(d):
        with open(os.path.join(d, n), "rb") as f:
            r[n] = f.read()
    return r


def cli(fn, argv):
    with contextlib.redirect_stdout(io.StringIO()):
        return guarded(lambda: fn(argv), timeout=60)


# -- extract ---------------------------------------------------------------------
def mesh_lines(rng, pts, L):
    """MESH file of elements: label -> centre (text fields of ten columns)."""
    w = [10, 10, 10, 10, 10, 10]
    ls = [rng.choice(["ELEME----1----*----2", "ELEME", "ELEME%2d" % L if L > 5 else "ELEME----"])]
    for k, c in pts:
        ls.append("%-15s%-5s%10s%20s" % (k, rng.choice(["dfalt", "    1", "ROCK1"]), rng.choice(["0.1E+01", " 1.00e+00"]), "") + "".join("%10s" % x for x in c))
    ls += ["", "CONNE----1"]
    q = [p[0] for p in pts]
    for a, b in zip(q, q[1:]):
        ls.append("%-25s%5d%10s%10s%10s%10s" % (a + b, 1, ".5", "5.E-1", "1.0", "0."))
    return ls + ["", ""]


def place(rng):
    x = rng.randint(-1998, 1998) / 2.0
    k = rng.randrange(4)
    if k == 0:
        return "%.1f" % x
    if k == 1:
        return "%.3e" % float("%.3g" % x)
    if k == 2:
        return "%.2E" % float("%.2g" % x)
    return "%d." % int(x)


def listing_of(rng, lab, prs, n):
    d, gap, ind = rng.choice([4, 5, 8]), rng.choice([1, 2]), rng.choice([0, 1, 2])
    names = {t: rng.sample(NAMES, rng.randint(1, 5)) for t in "EC"}
    turn = rng.random() < 0.25
    out = rng.choice([["1      @@@@@@@@@@@@"], ["", " @@@@@@@@@@@@@@"]]) + [" A PROBLEM", ""]
    for i in range(n):
        out += [" TOTAL TIME  KCYC", " %s    %d" % (fort((i + rng.random()) * 10.0 ** 5, 5, 11), i), "@@@", ""]
        for ty in "EC":
            if ty == "C" and not prs:
                continue
            out += ["", " " * ind + {"E": "ELEM. INDEX", "C": "ELEM1 ELEM2 INDEX"}[ty] + "".join("%*s" % (d + 9, x) for x in names[ty]), ""]
            keys = list(prs if ty == "C" else lab)
            if turn:
                rng.shuffle(keys)
            for j, k in enumerate(keys):
                v = [float("%.*e" % (d - 1, rng.uniform(-1, 1) * 10.0 ** rng.randint(-20, 20))) for _ in names[ty]]
                out.append(" " * ind + (k[0] + "  " + k[1] if ty == "C" else k) + "%6d" % (j + 1) + "".join(fort(x, d, d + 7 + gap) for x in v))
            out += ["", " " + "@" * 30]
    return out


def extract(c, rng, evs, lines, mlines, L, o, give_len, k, bad=False):
    d = os.path.abspath("x%d" % k)
    os.makedirs(d)
    inf, mf = rng.choice(["OUTPUT", "OUT.out"]), "MESH"
    put(os.path.join(d, inf), lines)
    put(os.path.join(d, mf), mlines)
    if bad:
        if rng.random() < 0.5:
            inf = "NOWHERE"
        else:
            mf = "NOWHERE"
    pre = rng.random() < 0.3
    argv = [inf, mf]
    if o["out"]:
        argv += [rng.choice(["-o", "--output-file"]), o["out"]]
    if o["fmt"] != "csv" or rng.random() < 0.3:
        argv += [rng.choice(["-f", "--file-format"]), o["fmt"]]
    if o["split"] == "1":
        argv += [rng.choice(["-s", "--split"])]
    if o["conn"] == "1":
        argv += [rng.choice(["-c", "--connection"])]
    if give_len:
        argv += ["-l", str(L)]
    was = content(d)
    cwd = os.getcwd()
    os.chdir(d)
    try:
        _, err = cli(toughio._cli.extract, argv)
    finally:
        os.chdir(cwd)
    now = content(d)
    new = sorted(set(now) - set(was))
    e = dict(ev="extract", lines=lines, mlines=mlines, L=L, o=o, bad="1" if bad else "0", err=err, new=new,
             changed="1" if any(now.get(n) != was[n] for n in was) else "0", files={n: now[n].decode().split("\n") for n in new}, argv=argv)
    evs.append(e)
    c.count("extract" + ("_connections" if o["conn"] == "1" else "") + ("_refused" if err else ""))
    shutil.rmtree(d)


def extracts(c, rng, evs, cases):
    k = 0
    for x in cases:
        extract(c, rng, evs, x["lines"], x["mesh"], 5, dict(x["o"], out=rng.choice(["", "", "a.dat", "b.c.csv", "noext"])), rng.random() < 0.3, k)
        k += 1
    for _ in range(c.quick(90, 800)):
        L = rng.choice([5, 5, 5, 6, 7, 8, 9])
        n = rng.choice([1, 2, 4, 9])
        lab = labels(rng, n + 2, L, True)
        pts = [(x, [place(rng) for _ in range(3)]) for x in lab]
        rows = rng.sample(lab, n) if rng.random() < 0.7 else lab[:n]
        prs = [tuple(rng.sample(lab, 2)) for _ in range(rng.choice([0, 1, 5]))]
        if rng.random() < 0.1:
            (rows if rng.random() < 0.6 or not prs else [None]).__setitem__(0, rows[0])
            miss = rng.choice(rows)
            pts = [p for p in pts if p[0] != miss]
        rng.shuffle(pts)
        lines = listing_of(rng, rows, prs, rng.choice([1, 1, 2, 3, 11]))
        ml = mesh_lines(rng, pts, L)
        r = rng.random()
        if r < 0.03:
            ml = ["CONNE", "", ""]
        elif r < 0.06:
            lines = rng.choice([["ELEM,P", "-,-", '"TIME [sec] 1.0"', rows[0] + ",1.0"], ["INCON", rows[0] + " " * 10, " 1.0", ""], ["nothing"],
                                ["VARIABLES = X Y P", 'ZONE T="1.0 SEC" I = 1', "1. 2. 3."]])
        o = dict(fmt=rng.choice(["csv", "csv", "tecplot", "petrasim"]), split=rng.choice("01"), conn="1" if rng.random() < 0.35 else "0",
                 out=rng.choice(["", "", "r.csv", "some.dat", "r.tec", "noext", "a.b.csv"]))
        if o["conn"] == "1" and rng.random() < 0.8:
            o["fmt"] = "csv"
        extract(c, rng, evs, lines, ml, L, o, L > 5 or rng.random() < 0.2, k, rng.random() < 0.04)
        k += 1


# -- export ----------------------------------------------------------------------
def table_file(rng, path, kind, ty, lab, cols, ts, data):
    """A result file written by hand; data[i][name] -> values, labels per step in lab[i]."""
    e = lambda x: "%.8E" % x
    ls = []
    if kind == "csv":
        ls = [",".join('"%s"' % x for x in ["ELEM"] + cols), ",".join('"-"' for _ in range(len(cols) + 1))]
        for t, l, d in zip(ts, lab, data):
            if t is not None:
                ls.append('"TIME [sec]  %s"' % e(t))
            ls += [",".join(['"%s"' % l[i]] + [e(d[x][i]) for x in cols]) for i in range(len(l))]
    elif kind == "petrasim":
        ls = [",".join(["TIME [sec]", "ELEM", "INDEX"] + cols)]
        for t, l, d in zip(ts, lab, data):
            ls += [",".join([e(t), l[i], str(i + 1)] + [e(d[x][i]) for x in cols]) for i in range(len(l))]
    elif kind == "tecplot":
        ls = [" VARIABLES = " + ", ".join('"%s"' % x for x in cols)]
        for t, l, d in zip(ts, lab, data):
            ls.append('ZONE T="%s SEC" I = %d' % (e(t), len(l)) if t is not None else "ZONE I = %d, F=POINT" % len(l))
            ls += [" ".join(e(d[x][i]) for x in cols) for i in range(len(l))]
    elif kind == "tough":
        ls = ["", "@@@@@@@@@@"]
        for t, l, d in zip(ts, lab, data):
            ls += [" TOTAL TIME", " " + e(t), "", " ELEM.  INDEX" + "".join("%16s" % x for x in cols), ""]
            ls += [" " + l[i] + "%6d" % (i + 1) + "".join("%16s" % e(d[x][i]) for x in cols) for i in range(len(l))] + [" @@@@@@@@"]
    else:
        ls = ["INCON"]
        for i, k in enumerate(lab[0]):
            ls += ["%-15s%15.8E" % (k, 0.25), "".join("%20.12E" % data[0][x][i] for x in cols)]
        ls += ["+++", " 1 1 1"]
    put(path, ls)
    return ls


def flat_cells(cells):
    return [dict(t=b.type, n=[int(x) for x in r]) for b in cells for r in b.data]


def cellrows(v):
    return [enc_num(x) for x in numpy.ravel(v)]


def observe(path, fmt):
    if fmt == "xdmf":
        p, cells, pd, cd, ts = toughio.read_time_series(path)
        loc = lambda i: ("cell", cd[i]) if cd[i] else ("point", pd[i])
        return dict(pts=vals(p), cells=flat_cells(cells), steps=[dict(t=enc_num(float(ts[i])), loc=loc(i)[0], data={k: cellrows(v) for k, v in loc(i)[1].items()}) for i in range(len(ts))])
    if fmt == "tecplot":
        m = toughio.read_mesh(path, file_format="tecplot")
        cd, pd = m.cell_data, m.point_data
    else:
        m = meshio.read(path, file_format=fmt)
        cd, pd = {k: numpy.concatenate(v) for k, v in m.cell_data.items()}, m.point_data
    cd = {k: v for k, v in cd.items() if k != "material" and numpy.ndim(v) == 1}
    pd = {k: v for k, v in pd.items() if numpy.ndim(v) == 1}
    loc, d = ("cell", cd) if cd else ("point", pd)
    return dict(pts=vals(m.points), cells=flat_cells(m.cells), steps=[dict(t="", loc=loc, data={k: cellrows(v) for k, v in d.items()})])


EXT = {"vtk": ".vtk", "vtu": ".vtu", "tecplot": ".dat", "xdmf": ".xdmf"}


def export(c, rng, evs, lines, o, k, mesh=None, grid=False, bad=False, nv=0):
    d = os.path.abspath("p%d" % k)
    os.makedirs(d)
    inf = rng.choice(["OUTPUT", "res.csv", "a.b.out"])
    put(os.path.join(d, inf), lines)
    e = dict(ev="export", lines=lines, o=o, bad="1" if bad else "0", grid="1" if grid else "0", nv=nv, mesh={})
    if bad == "infile":
        argv = ["NOWHERE"]
    else:
        argv = [inf]
    if mesh is not None:
        mesh.write(os.path.join(d, "m.pickle"))
        e["mesh"] = dict(pts=vals(mesh.points), cells=flat_cells(mesh.cells), labels=[str(x) for x in mesh.labels])
        argv += [rng.choice(["-m", "--mesh"]), "NOWHERE" if bad == "mesh" else "m.pickle"]
    elif bad == "mesh":
        argv += ["-m", "NOWHERE"]
    if o["t"] != "":
        argv += ["--time-step=" + o["t"]]
    if o["fmt"] != "vtk" or rng.random() < 0.5:
        argv += [rng.choice(["-f", "--file-format"]), o["fmt"]]
    if o["voxel"] == "1":
        argv += [rng.choice(["-v", "--voxelize"])]
    if o["org"] != []:
        argv += ["--origin"] + ["%r" % (x / 1000.0) for x in o["org"]]
    if o["layer"] == "1":
        argv += ["--layer"]
    name = os.path.splitext(inf)[0] + EXT[o["fmt"]]
    if rng.random() < 0.4:
        name = "shown" + EXT[o["fmt"]]
        argv += [rng.choice(["-o", "--output-file"]), name]
    was = content(d)
    cwd = os.getcwd()
    os.chdir(d)
    try:
        _, err = cli(toughio._cli.export, argv)
        now = content(d)
        new = sorted(set(now) - set(was))
        e.update(err=err, new=new, changed="1" if any(now.get(n) != was[n] for n in was) else "0", named=bool(err) or name in new, argv=argv,
                 res=dict(pts=[], cells=[], steps=[]))
        if not err and name in new:
            r, oerr = guarded(lambda: observe(name, o["fmt"]), timeout=60)
            if oerr:
                e["err"] = "unreadable: " + oerr
            else:
                e["res"] = r
    finally:
        os.chdir(cwd)
    evs.append(e)
    c.count("export_" + ("mesh" if o["mesh"] == "1" else "voxels" if o["voxel"] == "1" else "points") + ("_refused" if err else ""))
    c.count("export_to_" + o["fmt"])
    shutil.rmtree(d)


def results(rng, kind, L, cols, xyz=None, nsteps=None):
    """Labels, times and data of every step; xyz: label -> coordinates."""
    n = nsteps or rng.choice([1, 2, 3, 5])
    if kind == "save":
        n = 1
    ts = sorted(rng.sample(range(0, 10**6), n))
    ts = [float(t) / 4 for t in ts]
    if rng.random() < 0.2:
        ts[0] = 0.0
    if kind in ("csv", "tecplot") and n == 1 and rng.random() < 0.15:
        ts = [None]
    same = kind == "tecplot" or rng.random() < 0.6
    first = rng.sample(L, len(L)) if rng.random() < 0.7 else list(L)
    lab = [first if same or i == 0 else rng.sample(L, len(L)) for i in range(n)]
    data = []
    for l in lab:
        q = {x: [float("%.*e" % (rng.randint(0, 5), rng.uniform(-1, 1) * 10.0 ** rng.randint(-9, 9))) for _ in l] for x in cols if x not in "XYZ"}
        for i, x in enumerate("XYZ"):
            if x in cols:
                q[x] = [xyz[y][i] for y in l]
        data.append(q)
    return ts, lab, data


def opts(rng, n, mesh=False, voxel=False, org=None):
    fmt = rng.choice(["vtk", "vtu", "tecplot", "xdmf", "xdmf"])
    t = "" if rng.random() < 0.5 else str(rng.randint(-n - 1, n))
    return dict(fmt=fmt, t=t, voxel="1" if voxel else "0", mesh="1" if mesh else "0", org=org or [], layer=rng.choice("01") if voxel or org else "0")


def axis(rng, n):
    """Origin and middles of n intervals, in thousandths."""
    o = rng.choice([0, -1000, 2500, -70000])
    x, at = [], o
    for _ in range(n):
        w = rng.choice([1000, 2000, 5000])
        x.append(at + w // 2)
        at += w
    return o, x


def exports(c, rng, evs, cases):
    k = 0
    for x in cases:
        o = opts(rng, 1, voxel=True, org=x["org"])
        o["t"] = ""
        export(c, rng, evs, x["lines"], o, k)
        k += 1
    for _ in range(c.quick(120, 900)):
        how = rng.randrange(10)
        kind = rng.choice(["csv", "csv", "petrasim", "tecplot", "tough", "save"])
        if how < 4:  # on a mesh
            if rng.random() < 0.5:
                g = build(rng, maxvox=4, maxcells=14)
                m = g.mesh()
            else:
                m = toughio.meshmaker.structured_grid([1.0] * rng.randint(1, 3), [2.0] * rng.randint(1, 3), [1.5] * rng.randint(1, 3))
            if rng.random() < 0.3:
                m.cell_data.clear()
            if kind == "tecplot":
                kind = "csv"
            L = [str(q) for q in m.labels]
            cols = rng.sample(VARS, rng.randint(1, 4))
            cen = {a: [float(z) for z in b] for a, b in zip(L, m.centers)}
            if kind in ("csv", "petrasim") and rng.random() < 0.5:
                cols += list("XYZ")
            if kind == "save":
                cols = ["X%d" % (i + 1) for i in range(rng.randint(2, 4))]
            use = L
            if rng.random() < 0.08:
                use = rng.choice([L[:-1] or ["ZZZ77"], L + ["ZZZ99"], L[1:] + ["ZZZ99"]])
                cen["ZZZ99"] = cen["ZZZ77"] = [0.0] * 3
            ts, lab, data = results(rng, kind, use, cols, cen)
            lines = table_file(rng, "t", kind, "element", lab, cols, ts, data)
            o = opts(rng, len(ts), mesh=True)
            if o["fmt"] == "tecplot" and len(set(b.type for b in m.cells)) > 1 or m.cells[0].type not in ("hexahedron", "tetra"):
                o["fmt"] = rng.choice(["vtu", "xdmf", "vtk"])
            if o["fmt"] == "xdmf":
                o["t"] = ""
            if rng.random() < 0.2:
                m.add_cell_data("old", numpy.arange(m.n_cells) * 1.0)
            if rng.random() < 0.1:
                o["voxel"] = "1"
            export(c, rng, evs, lines, o, k, mesh=m, bad=rng.choice(["infile", "mesh"]) if rng.random() < 0.04 else False, nv=len(cols))
            k += 1
            continue
        if kind == "save" or kind == "tough" and rng.random() < 0.7:
            kind = "csv"
        cols = rng.sample(VARS, rng.randint(1, 4))
        if how < 8:  # points of a grid
            dims = [rng.choice([1, 2, 3]) for _ in range(3)]
            if rng.random() < 0.15:
                dims = rng.sample([1, 1, rng.randint(2, 5)], 3)
            ax = [axis(rng, n) for n in dims]
            pts = [(x, y, z) for x in ax[0][1] for y in ax[1][1] for z in ax[2][1]]
            pts = [[q / 1000.0 for q in p] for p in pts]
            org = [a[0] for a in ax]
            voxel = rng.random() < 0.6
            grid = True
            if rng.random() < 0.08 and len(pts) > 1:
                q = rng.randrange(4)
                if q == 0:
                    pts = pts[1:]
                elif q == 1:
                    pts[0] = list(pts[1])
                else:
                    org[rng.randrange(3)] += 10**6 if voxel else 0
                grid = False
        else:  # points anywhere
            d = rng.choice([2, 3])
            n = rng.randint(5, 12)
            pts = [[rng.randint(-2000, 2000) / 2.0 for _ in range(3)] for _ in range(n)]
            if d == 2:
                f = rng.randrange(3)
                v = rng.choice([0.0, 7.5])
                for p in pts:
                    p[f] = v
            voxel, grid, org = False, False, []
        L = ["A%04d" % i for i in range(len(pts))]
        xyz = dict(zip(L, pts))
        dim = sum(len(set(p[i] for p in pts)) > 1 for i in range(3))
        if dim == 2 and not voxel and how < 8 and not grid:
            grid, voxel = False, True
        give = voxel or dim <= 1 or rng.random() < 0.2
        if rng.random() < 0.07:
            give = not give
        have = [x for i, x in enumerate("XYZ") if kind == "tecplot" and i < 2 or len(set(p[i] for p in pts)) > 1 or rng.random() < 0.5]
        if rng.random() < 0.05 and kind != "tecplot":
            have = []
        if not have and kind == "tough":
            pass
        cols = cols + have
        if rng.random() < 0.5:
            rng.shuffle(cols)
        ts, lab, data = results(rng, kind, L, cols, xyz)
        lines = table_file(rng, "t", kind, "element", lab, cols, ts, data)
        o = opts(rng, len(ts), voxel=voxel, org=org if give else [])
        if o["fmt"] == "xdmf":
            o["t"] = ""
        export(c, rng, evs, lines, o, k, grid=grid, bad="infile" if rng.random() < 0.02 else False)
        k += 1


def run(c):
    rng = c.rng
    r1 = c.mc("ConvertMC", MC % (3, 2, "extract", 0, 1), name="orders of elements", timeout=800)
    r2 = c.mc("ConvertMC", MC % (3, 2, "voxel", 2, 1), name="grids of points", timeout=800)
    if c.tier == "thorough":
        c.mc("ConvertMC", MC % (4, 3, "extract", 0, 0), name="more orders of elements", workers=8, timeout=800)
    evs = []
    a, b = r1.tagged("EX"), r2.tagged("VX")
    extracts(c, rng, evs, rng.sample(a, min(len(a), c.quick(60, 400))))
    exports(c, rng, evs, rng.sample(b, min(len(b), c.quick(60, 400))))
    c.sample(lambda: {"argv": evs[0]["argv"]})
    report(c, c.trace("ConvertTrace", evs), ("err", "ev", "argv", "o", "new", "lines", "mlines", "res", "files"))
    c.assumptions += ["centres of elements and points of results are multiples of 0.5 below 100000"]
