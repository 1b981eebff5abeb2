"""M10: nearest cells, boxes and qualities."""
import itertools

from meshes import *

MC = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Ext=%d\nEmit=1\n"
      "INVARIANTS Somewhere Itself Shift Product Sides All Cuts Thin Emitted\n")


def base(g, ev):
    e = dict(ev=ev, err="", same="1", got=[], o=[int(x) for x in g.pts[0]])
    e.update(g.enc())
    return e


def scale(g, x8, d=0):
    """Real coordinate of x8 eighths of a lattice step from the first point, along axis d."""
    return (g.pts[0][d] + x8 / 8.0) * 10.0 ** g.k if g.k >= 0 else (g.pts[0][d] + x8 / 8.0) / 10.0 ** -g.k


def near(g, m, qs, one, rng):
    e = base(g, "near")
    P = [[scale(g, x, d) for d, x in enumerate(q)] for q in qs]
    if m.points.shape[1] == 2:
        P = [p[:2] for p in P]
    e["q"] = [[120 * x for x in q] for q in qs]
    arg = P[0] if one else P
    k = rng.randrange(3)
    arg = numpy.array(arg) if k == 0 else tuple(arg) if k == 1 and one else arg
    was = fingerprint(m)
    r, e["err"] = guarded(lambda: m.near(arg))
    e["same"] = "1" if fingerprint(m) == was else "0"
    e["one"] = "1" if one else "0"
    e["oneout"] = "1" if numpy.ndim(r) == 0 else "0"
    if not e["err"]:
        e["got"] = [int(x) for x in numpy.ravel(r)]
    return e


def box(g, m, b, exact, rng):
    """b: for each axis (lo, len) in eighths of a lattice step or None."""
    e = base(g, "box")
    kw = {}
    e["b"] = dict(has0=[], lo=[], hasd=[], len=[])
    for d, (lo, ln) in enumerate(b):
        e["b"]["has0"].append(lo is not None)
        e["b"]["lo"].append(120 * (lo or 0))
        e["b"]["hasd"].append(ln is not None)
        e["b"]["len"].append(120 * (ln or 0))
        n = "xyz"[d]
        if lo is not None:
            kw[n + "0"] = scale(g, lo, d)
        if ln is not None:
            v = ln / 8.0
            kw["d" + n] = v * 10.0 ** g.k if g.k >= 0 else v / 10.0 ** -g.k
        for k in (n + "0", "d" + n):
            if k in kw and kw[k] == int(kw[k]) and rng.random() < 0.5:
                kw[k] = int(kw[k])
            elif k not in kw and rng.random() < 0.3:
                kw[k] = None
    e["exact"] = "1" if exact else "0"
    was = fingerprint(m)
    how = rng.randrange(3)
    r, e["err"] = guarded(lambda: m.filter(**kw) if how == 0 else m.filter("box", **kw) if how == 1 else m.filter.box(**kw))
    e["same"] = "1" if fingerprint(m) == was else "0"
    if not e["err"]:
        e["got"] = [int(x) for x in numpy.ravel(r)]
    return e


def dyadic(g):
    return g.k == 0 and all(t in ("tetra", "hexahedron") for t, _ in g.cells)


def quality(g, m):
    e = base(g, "quality")
    was = fingerprint(m)
    r, e["err"] = guarded(lambda: m.qualities)
    e["same"] = "1" if fingerprint(m) == was else "0"
    if not e["err"]:
        e["got"] = [int(round(float(x) * 1e6)) if x == x and abs(x) < 2 else -1 for x in numpy.ravel(r)]
    return e


def fine(g):
    """Areas and lines small enough for the specification's integers."""
    P = numpy.array(g.pts)
    ext = int((P.max(axis=0) - P.min(axis=0)).max())
    return ext <= 60


def run(c):
    rng = c.rng
    r = c.mc("QueryMC", MC % c.quick(8, 10), name="points and boxes")
    evs = []
    # the model's centres: widths 2, 4, 2 by 2, 4
    xs, ys, zs = [0, 2, 6, 8], [0, 2, 6], [0, 2]
    pts = [(x, y, z) for z in zs for y in ys for x in xs]
    ix = {p: i for i, p in enumerate(pts)}
    cells = [("hexahedron", [ix[xs[i + a], ys[j + b], zs[k]] for k in (0, 1) for a, b in ((0, 0), (1, 0), (1, 1), (0, 1))])
             for j in range(2) for i in range(3)]
    g = GM(pts, cells, [6], 0)
    m = g.mesh()
    pool = []
    for d in r.tagged("Q"):
        if d["kind"] == "near":
            q = [8 * x for x in d["p"]]
            evs.append(near(g, m, [q], True, rng))
            pool.append(q)
        else:
            b = [(8 * d[a]["lo"] if d[a]["has0"] else None, 8 * d[a]["len"] if d[a]["hasd"] else None) for a in "xy"] + [(None, None)]
            evs.append(box(g, m, b, True, rng))
    evs.append(near(g, m, pool, False, rng))
    for _ in range(c.quick(220, 1500)):
        g = build(rng, maxvox=4, maxcells=20)
        m = g.mesh()
        P = numpy.array(g.pts) - numpy.array(g.pts[0])
        lo, hi = P.min(axis=0) * 8, P.max(axis=0) * 8

        def point():
            k = rng.randrange(4)
            if k == 0:
                return [int(8 * x) for x in P[rng.randrange(len(P))]]
            if k == 1:
                return [rng.randint(int(a), int(b)) for a, b in zip(lo, hi)]
            if k == 2:
                n = rng.choice(g.cells)[1]
                return [int(round(x)) for x in 8 * P[n].mean(axis=0)]
            return [rng.randint(int(a) - 80, int(b) + 80) for a, b in zip(lo, hi)]
        n = rng.choice([1, 1, 3, 6])
        evs.append(near(g, m, [point() for _ in range(n)], n == 1 and rng.random() < 0.5, rng))
        for _ in range(2):
            b = []
            for d in range(3):
                k = rng.randrange(4)
                x = point()[d] if rng.random() < 0.7 else int(lo[d])
                ln = rng.choice([0, 8, 16, int(hi[d] - lo[d]), rng.randint(0, max(1, int(hi[d] - lo[d])))])
                b.append([(None, None), (x, None), (x, ln), (int(lo[d]), int(hi[d] - lo[d]))][k])
            evs.append(box(g, m, b, dyadic(g), rng))
        if fine(g):
            evs.append(quality(g, m))
            c.count("quality_meshes")
    # a flat mesh of two coordinates
    import toughio
    for _ in range(c.quick(10, 40)):
        nx, ny = rng.randint(1, 3), rng.randint(1, 3)
        f = toughio.meshmaker.structured_grid([2.0] * nx, [4.0] * ny)
        pts = [tuple(int(x) for x in p) for p in f.points]
        m = toughio.Mesh(f.points[:, :2].copy() if rng.random() < 0.5 else f.points, f.cells)
        g = GM(pts, [("quad", [int(x) for x in q]) for q in f.cells[0].data], [nx * ny], 0)
        evs.append(near(g, m, [[rng.randint(-8, 60), rng.randint(-8, 60), 0] for _ in range(3)], False, rng))
    m = build(rng, maxvox=3).mesh()
    for f in [lambda: m.near(1.0), lambda: m.near([1.0, 2.0]), lambda: m.near([[1.0, 2.0], [3.0, 4.0]]), lambda: m.near([1.0]), lambda: m.near([1.0, 2.0, 3.0, 4.0]), lambda: m.near([[1.0, 2.0, 3.0, 4.0]])]:
        _, err = guarded(f)
        evs.append(dict(ev="bad", err=err, same="1"))
    for e in evs:
        c.count(e["ev"])
    c.sample(lambda: {"near": next(e["got"] for e in evs[::-1] if e["ev"] == "near"), "box": [e["got"] for e in evs if e["ev"] == "box"][-3:]})
    report(c, c.trace("QueryTrace", evs), ("ev", "err", "got", "b", "q", "k", "cells"))
    c.assumptions += ["lattice coordinates times a power of ten; centres on the very side of a box count only where they are exact in binary",
                      "a length of a box needs its lower bound", "cells without connections have no quality to compare"]
