"""M13: the views of a mesh follow its content."""
import copy
import pickle

import toughio
from core import enc_num
from meshes import *

MC = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Depth=%d\nEmit=%d\n"
      "INVARIANTS SplitInverse Partition SameCentres Aligned OneLineEach Emitted\nPROPERTY Apart\n")
NODES = dict(vertex=1, line=2, triangle=3, quad=4, tetra=4, pyramid=5, wedge=6, hexahedron=8)
NONE = {"live": "0"}


def whole(x):
    """Coordinates are whole numbers (or sums of them)."""
    return int(round(float(x))) if abs(float(x) - round(float(x))) < 1e-6 else str(float(x))


def rows(a):
    return [[enc_num(x) for x in numpy.ravel(r)] for r in a]


def content(points, blocks, pd, cd, ps, fd):
    return dict(pts=[[whole(x) for x in p] for p in points],
                blocks=[dict(t=t, n=[[int(x) for x in r] for r in d]) for t, d in blocks],
                pd=[dict(k=k, v=rows(v)) for k, v in pd.items()], cd=[dict(k=k, v=rows(v)) for k, v in cd.items()],
                ps=[dict(k=k, v=[int(x) for x in v]) for k, v in ps.items()],
                fd=[dict(k=k, v=field(v)) for k, v in fd.items()])


def field(v):
    v = numpy.asarray(v)
    return dict(id="i%d" % v[0], dim=int(v[1])) if v.shape == (2,) else dict(id="x", dim=0)


def observe(m):
    if m is None:
        return NONE
    o = dict(content(m.points, m.cells, m.point_data, m.cell_data, m.point_sets, m.field_data), live="1")
    nc = sum(len(d) for _, d in m.cells)
    o.update(np=int(m.n_points), nc=int(m.n_cells), text=repr(m).split("\n"),
             dict=[dict(t=t, n=[[int(x) for x in r] for r in d]) for t, d in m.cells_dict.items()],
             split=[[int(x) for x in a] for a in m.split(numpy.arange(nc) + 1)] if m.cells else [],
             cen=[], mats=[enc_num(x) for x in m.materials] if len(m.cell_data.get("material", range(nc))) == nc else [], nlab=len(m.labels))
    if m.cells:
        sizes = [len(r) for _, d in m.cells for r in d]
        o["cen"] = [[whole(x * n) for x in p] for p, n in zip(m.centers, sizes)] if len(m.centers) == nc else []
    return o


class Lives:
    """Two meshes and the calls made on them."""

    def __init__(self, c, rng):
        self.c, self.rng, self.m, self.events = c, rng, [None, None], []

    def step(self, op, s, fn, **kw):
        _, err = guarded(fn)
        e = dict(op=op, s=s + 1, err=err, first="1" if not self.events else "0", **kw)
        e["obs"] = []
        for m in self.m:
            o, er = guarded(lambda: observe(m))
            if er:
                e["obs"], e["err"], e["op"] = [NONE, NONE], "observing: " + er, "look" if op == "bad" else op
                break
            e["obs"].append(o)
        self.events.append(e)
        self.c.count("calls")
        return not e["err"] or op == "bad"

    # -- the mesh is built ----------------------------------------------------
    def blocks_arg(self, blocks):
        """The blocks in one of the ways in which they may be given."""
        arrays = [(t, numpy.array(d, dtype=int).reshape((-1, NODES[t]))) for t, d in blocks]
        types = [t for t, _ in blocks]
        k = self.rng.randrange(4)
        if k == 0 and len(set(types)) == len(types) and types:
            return dict(arrays)
        if k == 1:
            return [[t, a] for t, a in arrays]
        if k == 2 and hasattr(toughio, "_mesh"):
            return tuple(arrays)
        return arrays

    def new(self, s, points, blocks, pd=None, cd=None, ps=None, fd=None):
        d = [x or {} for x in (pd, cd, ps, fd)]
        e = content(points, blocks, *d)
        given = [x or self.rng.choice([None, {}]) for x in (pd, cd, fd, ps)]
        pts = self.rng.choice([numpy.array, numpy.array, list, tuple])([tuple(float(x) for x in p) for p in points])
        cells = self.blocks_arg(blocks)

        def fn():
            kw = dict(zip(("point_data", "cell_data", "field_data", "point_sets"), given))
            self.m[s] = toughio.Mesh(pts, cells, **{k: v for k, v in kw.items() if v is not None or self.rng.random() < 0.5})
        return self.step("new", s, fn, **e)

    def copy(self, s):
        t = 1 - s
        how = self.rng.choice([copy.deepcopy, lambda m: pickle.loads(pickle.dumps(m))])

        def fn():
            self.m[t] = how(self.m[s])
        return self.step("copy", s, fn, to=t + 1)

    # -- its content is changed ---------------------------------------------------
    def points(self, s, pts):
        def fn():
            self.m[s].points = numpy.array(pts, dtype=float)
        return self.step("points", s, fn, pts=[[int(x) for x in p] for p in pts])

    def move(self, s, i, x, v):
        def fn():
            self.m[s].points[i, x] = v
        return self.step("move", s, fn, i=i + 1, x=x + 1, v=v)

    def cells(self, s, blocks):
        arg = self.blocks_arg(blocks)

        def fn():
            self.m[s].cell_data = {}
            self.m[s].cells = arg
        return self.step("cells", s, fn, blocks=[dict(t=t, n=[[int(x) for x in r] for r in d]) for t, d in blocks])

    def recells(self, s, blocks):
        """Other cells; the data are left for later."""
        arg = self.blocks_arg(blocks)

        def fn():
            self.m[s].cells = arg
        return self.step("recells", s, fn, blocks=[dict(t=t, n=[[int(x) for x in r] for r in d]) for t, d in blocks])

    def regroup(self, s):
        def fn():
            self.m[s].cell_data = {}
            self.m[s].cells = self.m[s].cells_dict
        return self.step("regroup", s, fn)

    def array(self, n, k):
        rng = self.rng
        if k == "material":
            return numpy.array([rng.randint(1, 3) for _ in range(n)])
        q = rng.randrange(3)
        return (numpy.array([rng.randint(-9, 9) for _ in range(n)], dtype=int) if q == 0
                else numpy.array([[rng.uniform(-1, 1) for _ in range(2)] for _ in range(n)]).reshape((n, 2)) if q == 1
                else numpy.array([rng.uniform(-1, 1) * 10.0 ** rng.randint(-9, 9) for _ in range(n)]))

    def add(self, s, kind, k):
        m = self.m[s]
        a = self.array(len(m.points) if kind == "point" else sum(len(d) for _, d in m.cells), k)
        v = a.tolist() if self.rng.random() < 0.3 and a.ndim == 1 else a
        fn = (lambda: m.add_point_data(k, v)) if kind == "point" else (lambda: m.add_cell_data(k, v))
        if self.rng.random() < 0.25:
            def fn():
                getattr(m, kind + "_data")[k] = a
        return self.step("add_" + kind, s, fn, k=k, v=rows(a))

    def drop(self, s, kind, k):
        def fn():
            getattr(self.m[s], kind + "_data").pop(k)
        return self.step("drop_" + kind, s, fn, k=k)

    def pset(self, s, k, v):
        def fn():
            self.m[s].point_sets[k] = numpy.array(v, dtype=int)
        return self.step("point_set", s, fn, k=k, v=v)

    def field(self, s, k, v):
        def fn():
            self.m[s].field_data[k] = v
        return self.step("field", s, fn, k=k, v=field(v))

    def bad(self, s):
        m, n = self.m[s], len(self.m[s].points)
        nc = sum(len(d) for _, d in m.cells)
        fn = self.rng.choice([
            lambda: m.add_point_data("w", numpy.zeros(n + 1)), lambda: m.add_point_data("w", [0.0] * (n + 2)),
            lambda: m.add_point_data(3, numpy.zeros(n)), lambda: m.add_point_data("w", 1.0), lambda: m.add_point_data("w", "a" * n),
            lambda: m.add_cell_data("w", numpy.zeros(nc + 1)), lambda: m.add_cell_data("w", numpy.zeros(nc - 1)), lambda: m.add_point_data("w", numpy.zeros(n - 1)), lambda: m.split(numpy.zeros(nc - 1)), lambda: m.add_cell_data("w", [0] * (nc + 1)),
            lambda: m.add_cell_data(None, numpy.zeros(nc)), lambda: m.add_cell_data("w", 1), lambda: m.add_cell_data("w", "a" * nc),
            lambda: m.split(numpy.zeros(nc + 1)), lambda: m.split([0] * (nc + 3))])
        return self.step("bad", s, fn)


def some_points(rng, n=None, dim=None):
    dim = dim or rng.choice([2, 3, 3])
    return [[rng.randint(-50, 50) for _ in range(dim)] for _ in range(n or rng.randint(8, 14))]


def some_blocks(rng, n, large=False):
    types = rng.sample(sorted(NODES), rng.randint(1, 4))
    out = []
    for _ in range(rng.choice([1, 1, 2, 3, 5, 8])):
        t = rng.choice(types)
        k = 0 if rng.random() < 0.06 else rng.choice([1, 2, 3, 12, 120 if large else 5])
        out.append((t, [rng.sample(range(n), NODES[t]) for _ in range(k)]))
    if not any(d for _, d in out):
        out.append(("line", [[0, 1]]))
    return out


def model_call(L, h):
    s = h["s"] - 1
    blocks = [(b["t"], b["n"]) for b in h.get("blocks", [])]
    op = h["op"]
    if op == "new":
        return L.new(s, h["pts"], blocks)
    if op == "copy":
        return L.copy(s)
    if op == "points":
        return L.points(s, h["pts"])
    if op == "move":
        return L.move(s, h["i"] - 1, h["x"] - 1, h["v"])
    if op == "cells":
        return L.cells(s, blocks)
    if op == "regroup":
        return L.regroup(s)
    if op in ("add_cell", "add_point"):
        return L.add(s, op[4:], h["k"])
    if op == "drop_cell":
        return L.drop(s, "cell", h["k"])
    return L.field(s, h["k"], numpy.array([1, 2]))


def random_call(L, rng):
    live = [s for s in (0, 1) if L.m[s] is not None]
    if not live or rng.random() < 0.12:
        pts = some_points(rng)
        blocks = some_blocks(rng, len(pts), rng.random() < 0.05)
        nc = sum(len(d) for _, d in blocks)
        kw = {}
        if rng.random() < 0.4:
            kw = dict(pd={k: L.array(len(pts), k) for k in rng.sample(["p", "q"], rng.randint(0, 2))},
                      cd={k: L.array(nc, k) for k in rng.sample(["material", "u", "v"], rng.randint(0, 3))},
                      ps={k: numpy.array(sorted(rng.sample(range(len(pts)), 3))) for k in rng.sample(["top", "side"], rng.randint(0, 2))},
                      fd={k: numpy.array([i + 1, rng.choice([2, 3])]) for i, k in enumerate(rng.sample(["A", "B", "C"], rng.randint(0, 3)))})
        return L.new(rng.randrange(2), pts, blocks, **kw)
    s = rng.choice(live)
    m = L.m[s]
    n, dim = len(m.points), len(m.points[0])
    k = rng.randrange(12)
    if k == 0:
        return L.copy(s)
    if k == 1:
        return L.points(s, some_points(rng, n, dim))
    if k == 2:
        return L.move(s, rng.randrange(n), rng.randrange(dim), rng.randint(-50, 50))
    if k == 3 and rng.random() < 0.4:
        return L.recells(s, some_blocks(rng, n))
    if k == 3:
        return L.cells(s, some_blocks(rng, n))
    if k == 4:
        return L.regroup(s)
    if k == 5:
        return L.pset(s, rng.choice(["top", "side", "a b"]), sorted(rng.sample(range(n), rng.randint(1, 4))))
    if k == 6:
        return L.field(s, rng.choice(["A", "B", "C", "D"]), numpy.array(rng.choice([[rng.randint(1, 3), rng.randint(0, 3)]] * 3 + [[1.0, 2.0, 0.5]])))
    if k == 7 and (m.point_data or m.cell_data):
        kind = rng.choice([x for x in ("point", "cell") if getattr(m, x + "_data")])
        return L.drop(s, kind, rng.choice(sorted(getattr(m, kind + "_data"))))
    if k == 8:
        return L.bad(s)
    if k < 10:
        return L.add(s, "point", rng.choice(["p", "q", "T"]))
    return L.add(s, "cell", rng.choice(["material", "material", "u", "v"]))


def run(c):
    rng = c.rng
    r = c.mc("ViewsMC", MC % (3, 1), name="histories of calls on two meshes", workers=8)
    hists = sorted(r.tagged("HIST"), key=str)
    if c.tier == "thorough":
        c.mc("ViewsMC", MC % (4, 0), name="longer histories", workers=8)
    groups = []
    for h in rng.sample(hists, min(len(hists), c.quick(500, 4000))):
        L = Lives(c, rng)
        for e in h:
            if not model_call(L, e):
                break
        groups.append(L.events)
        c.count("model_histories")
    for _ in range(c.quick(350, 3000)):
        L = Lives(c, rng)
        for _ in range(rng.randint(3, 14)):
            if not random_call(L, rng):
                break
        groups.append(L.events)
        c.count("histories")
    c.sample(lambda: {"calls": [e["op"] for e in groups[-1]], "display": groups[-1][-1]["obs"]})
    report(c, c.trace("ViewsTrace", None, groups=groups), ("op", "s", "err", "k"))
    c.assumptions += ["whole coordinates; cells of fixed numbers of nodes"]
