"""M05: edit histories."""
import copy

import meshio
import toughio
from core import enc_num
from meshes import *
from meshgen import SYM

EDITMC = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Depth=%d Emit=%d\n"
          "INVARIANTS Lengths GhostNames DistinctIds Uids Emitted\n")


def vals(a):
    a = numpy.asarray(a)
    return [[enc_num(x) for x in numpy.ravel(r)] for r in a]


def snum(x):
    return "f%.9g" % x if x == x else "fnan"


def observe(m, cyl=False, unit=1.0):
    p = numpy.asarray(m.points) / unit
    mats = []
    for x in numpy.ravel(m.materials):
        mats.append(enc_num(x))
    vols = []
    if cyl:
        vols = [snum(v) for v in m.volumes]
    return dict(dim=int(p.shape[1]), pts=[[int(round(float(x))) if abs(float(x)) < 1e9 and abs(x - round(float(x))) < 1e-6 else 777777 for x in r] for r in p],
                blocks=[dict(t=b.type, n=[[int(x) for x in r] for r in b.data]) for b in m.cells],
                cd={k: vals(v) for k, v in m.cell_data.items()}, pd={k: vals(v) for k, v in m.point_data.items()},
                fd={k: int(v[0]) for k, v in m.field_data.items()}, mats=mats, vols=vols)


class Hist:
    """One history on the real code."""

    def __init__(self, c, rng, mesh, solid, cyl=False, unit=1.0):
        self.c, self.rng, self.m, self.solid, self.cyl, self.unit = c, rng, mesh, solid, cyl, unit
        if unit != 1.0:
            mesh.points = mesh.points * unit        # powers of two: exact
        self.kept = []           # (object, fingerprint function, value)
        self.events = [dict(op="init", obs=self.obs())]
        self.shuffled = False

    def obs(self):
        return observe(self.m, self.cyl, self.unit)

    def keep(self, o, f):
        self.kept.append((o, f, f(o)))

    def step(self, op, fn, **kw):
        e = dict(op=op, name="", idx=[], val=[], hs=[], axis=2, solid="1" if self.solid and not self.cyl else "0", numeric="1")
        e.update(kw)
        r, e["err"] = guarded(fn)
        if r is not None and not e["err"]:
            self.m = r
        e["obs"] = self.obs()
        e["kept"] = "1" if all(f(o) == v for o, f, v in self.kept) else "0"
        self.events.append(e)
        self.c.count("op_" + op)
        if e["err"]:
            self.c.count("refused_" + op)

    # -- the edits --
    def set(self, name=None, mask=None):
        rng, n = self.rng, self.m.n_cells
        name = name or rng.choice(["dfalt", "A", "B", "ROCK1", "cap"])
        if mask is None:
            mask = [rng.random() < rng.choice([0.2, 0.5, 1.0]) for _ in range(n)]
        idx = [i for i, b in enumerate(mask) if b]
        k = rng.randrange(6)
        if k == 0:
            arg = numpy.array(mask, dtype=bool)
        elif k == 1:
            arg = [bool(b) for b in mask]
        elif k == 2:
            arg = idx + (idx[:1] if rng.random() < 0.3 else [])
            rng.shuffle(arg)
        elif k == 3:
            arg = tuple(idx)
        else:
            arg = numpy.array(idx, dtype=rng.choice([numpy.int64, numpy.int32]))
        self.step("set", lambda: self.m.set_material(name, arg), name=name, idx=idx)

    def array(self, n):
        rng = self.rng
        k = rng.randrange(5)
        if k == 0:
            return [rng.randint(-9, 99) for _ in range(n)]
        if k == 1:
            return numpy.array([float(rng.randint(0, 99)) for _ in range(n)])
        if k == 2:
            return numpy.array([[rng.randint(0, 30) for _ in range(3)] for _ in range(n)], dtype=float)
        if k == 3:
            return tuple(rng.random() for _ in range(n))
        return numpy.array([[rng.randint(0, 30) for _ in range(2)] for _ in range(n)])

    def add_cell(self, name=None):
        k = name or self.rng.choice(["u", "v", "w", "uid"])
        a = self.array(self.m.n_cells)
        self.step("add_cell", lambda: self.m.add_cell_data(k, a), name=k, val=vals(a))

    def add_point(self, name=None):
        k = name or self.rng.choice(["p", "q", "u"])
        a = self.array(self.m.n_points)
        self.step("add_point", lambda: self.m.add_point_data(k, a), name=k, val=vals(a))

    def copying(self, fn):
        def call():
            old, was = self.m, fingerprint(self.m)
            new = fn(old)
            self.kept.append((old, fingerprint, was))
            return new
        return call

    def prune(self, copy_=False):
        def inpl():
            self.m.prune_duplicates()
        self.step("prune", self.copying(lambda m: m.prune_duplicates(inplace=False)) if copy_ else inpl)

    def extrude(self, copy_=False, hs=None):
        rng = self.rng
        hs = hs or [rng.choice([1, 2, 3, -2]) for _ in range(rng.choice([1, 1, 2, 3, 5]) if rng.random() < 0.96 else rng.choice([10, 11, 17]))]
        if any(h < 0 for h in hs):
            hs = [-abs(h) for h in hs]
        ax = 2 if rng.random() < 0.7 else rng.choice([0, 1])
        h = hs[0] * self.unit if len(hs) == 1 and rng.random() < 0.7 else rng.choice([list, tuple, numpy.array])([x * self.unit for x in hs])

        def inpl():
            self.m.extrude_to_3d(h, axis=ax)
        self.step("extrude", self.copying(lambda m: m.extrude_to_3d(h, ax, inplace=False)) if copy_ else inpl, hs=hs, axis=ax)
        if not self.events[-1]["err"]:
            self.solid = not self.shuffled and all(b["t"] in ("hexahedron", "wedge", "tetra", "pyramid") for b in self.events[-1]["obs"]["blocks"])

    def c2p(self):
        # data of both kinds under one name: the new one counts
        if self.rng.random() < 0.3:
            self.add_point(self.rng.choice([k for k in self.m.cell_data if k != "material"] or ["p"]))
        self.step("c2p", lambda: self.m.cell_data_to_point_data())

    def p2c(self):
        if self.rng.random() < 0.3:
            self.add_cell(self.rng.choice(list(self.m.point_data) or ["u"]))
        self.step("p2c", lambda: self.m.point_data_to_cell_data())

    def meshio(self):
        def call():
            old, was = self.m, fingerprint(self.m)
            x = old.to_meshio()
            if "material" in x.cell_data and self.rng.random() < 0.4:
                x.cell_data[self.rng.choice(["gmsh:physical", "medit:ref"])] = x.cell_data.pop("material")
            self.keep(x, mio_print)
            new = toughio.from_meshio(x)
            self.cyl = False
            self.kept.append((old, fingerprint, was))
            return new
        self.step("meshio", call)

    def pyvista(self):
        def call():
            old, was = self.m, fingerprint(self.m)
            x = old.to_pyvista()
            self.keep(x, pv_print)
            new = toughio.from_pyvista(x)
            self.cyl = False
            self.kept.append((old, fingerprint, was))
            return new
        self.step("pyvista", call)

    def bad(self, which=None):
        rng, m = self.rng, self.m
        n, np_ = m.n_cells, m.n_points
        opts = [lambda: m.set_material("X", [n]), lambda: m.set_material("X", [-1]), lambda: m.set_material("X", [0.5]),
                lambda: m.set_material("X", ["a"]), lambda: m.set_material("X", numpy.ones(n + 1, dtype=bool)),
                lambda: m.set_material("X", [0, n + 3]), lambda: m.set_material("X", 3),
                lambda: m.add_cell_data("x", list(range(n + 1))), lambda: m.add_cell_data(3, list(range(n))),
                lambda: m.add_cell_data("x", 1.0), lambda: m.add_cell_data("x", list(range(n - 1))),
                lambda: m.add_point_data("x", list(range(np_ + 1))), lambda: m.add_point_data(None, list(range(np_))),
                lambda: m.add_point_data("x", "a" * np_), lambda: m.add_cell_data("x", {i: i for i in range(n)}),
                lambda: m.extrude_to_3d(1.0, axis=3), lambda: m.extrude_to_3d(1.0, axis=-1),
                lambda: toughio.from_meshio(m), lambda: toughio.from_pyvista(m), lambda: toughio.from_meshio(m.to_meshio(), material=1),
                lambda: m.read_output(3), lambda: m.read_output([], 0), lambda: m.read_output("nofile.csv"),
                lambda: m.near(1.0), lambda: m.write(3), lambda: m.write_tough(3)]
        if which is not None and which >= len(opts):
            return False
        f = rng.choice(opts) if which is None else opts[which]

        def call():
            f()
        self.step("bad", call)
        return True

    def write(self):
        rng, m = self.rng, self.m
        fmt = rng.choice(["vtk", "vtu", "pickle", "tough", "avsucd", "tecplot", "flac3d", "incon"])

        def call():
            if fmt == "incon":
                m.write_incon("f_INCON")
            elif fmt == "tough":
                m.write_tough("f_MESH")
            else:
                m.write("f_" + fmt, file_format=fmt)
        self.step("write", call)

    def look(self):
        m = self.m

        def call():
            for f in (lambda: m.labels, lambda: m.centers, lambda: m.volumes, lambda: m.faces, lambda: m.connections,
                      lambda: m.face_normals, lambda: m.face_areas, lambda: m.qualities, lambda: m.materials,
                      lambda: m.near(m.points[0]), lambda: m.filter.box(x0=0.0), lambda: repr(m), lambda: m.split(numpy.arange(m.n_cells))):
                guarded(f)
        self.step("look", call)

    def do(self, op):
        {"prune_copy": lambda: self.prune(True), "extrude_copy": lambda: self.extrude(True)}.get(op, lambda: getattr(self, op)())()


def mio_print(x):
    return repr((x.points.tolist(), [(b.type, b.data.tolist()) for b in x.cells], sorted(x.point_data), sorted(x.cell_data),
                 [(k, numpy.asarray(v).tolist()) for k, v in x.point_data.items()],
                 [(k, [numpy.asarray(b).tolist() for b in v]) for k, v in x.cell_data.items()],
                 [(k, numpy.asarray(v).tolist()) for k, v in x.field_data.items()]))


def pv_print(x):
    return repr((numpy.asarray(x.points).tolist(), numpy.asarray(x.cells).tolist(), numpy.asarray(x.celltypes).tolist(),
                 [(k, numpy.asarray(x.point_arrays[k]).tolist()) for k in x.point_arrays.keys()],
                 [(k, numpy.asarray(x.cell_arrays[k]).tolist()) for k in x.cell_arrays.keys()]))


def model_mesh():
    m = toughio.Mesh(points=numpy.array([[0, 0], [1, 0], [1, 1], [0, 1], [2, 0], [2, 1], [1, 0]], dtype=float),
                     cells=[("quad", numpy.array([[0, 1, 2, 3], [1, 4, 5, 2], [0, 6, 2, 3]]))],
                     cell_data={"material": numpy.array([1, 1, 1]), "uid": numpy.array([1, 2, 3])},
                     point_data={"p": numpy.arange(7)}, field_data={"dfalt": numpy.array([1, 3])})
    return m


def decorate(rng, m, named=0.85):
    n = m.n_cells
    data, fd, _ = materials(rng, n)
    m.cell_data = {"uid": numpy.arange(n) + 1}
    if rng.random() < 0.95:
        m.cell_data["material"] = data
        if rng.random() < named:
            m.field_data = fd
    if m.field_data and rng.random() < 0.2:
        m.field_data.pop(rng.choice(list(m.field_data)))
    if rng.random() < 0.4:
        m.cell_data["vec"] = numpy.array([[rng.randint(0, 40) for _ in range(3)] for _ in range(n)])
    if rng.random() < 0.8:
        m.point_data = {"puid": numpy.arange(m.n_points)}
    if rng.random() < 0.3:
        m.point_data["pvec"] = numpy.array([[float(rng.randint(0, 40)) for _ in range(3)] for _ in range(m.n_points)])
    return m


def duplicate(rng, g, shuffled=False):
    """Some points twice, some cells twice."""
    pts, cells = list(g.pts), [list(x) for x in g.cells]
    for _ in range(rng.randint(0, 4)):
        i = rng.randrange(len(pts))
        pts.append(pts[i])
        for c in cells:
            if rng.random() < 0.5:
                c[1] = [len(pts) - 1 if q == i else q for q in c[1]]
    out = []
    for t, n in cells:
        out.append((t, n))
        if rng.random() < 0.15:
            q = list(n)
            if shuffled or rng.random() < 0.3:
                if shuffled:
                    rng.shuffle(q)
                elif t in SYM:
                    q = [q[k] for k in rng.choice(SYM[t])]
            out.append((t, q))
    if rng.random() < 0.3:
        out = sorted(out, key=lambda x: x[0])
    return GM(pts, out, blocks_of(rng, out), 0)


def flat(rng):
    """A 2D mesh of quads, triangles and lines."""
    nx, ny = rng.randint(1, 3), rng.randint(1, 3)
    pts = [(i * 2, j * 3) for j in range(ny + 1) for i in range(nx + 1)]
    cells = []
    for j in range(ny):
        for i in range(nx):
            a = j * (nx + 1) + i
            q = [a, a + 1, a + nx + 2, a + nx + 1]
            if rng.random() < 0.5:
                cells.append(("quad", q))
            else:
                cells += [("triangle", [q[0], q[1], q[2]]), ("triangle", [q[0], q[2], q[3]])]
    rng.shuffle(cells)
    if rng.random() < 0.6:
        cells.sort(key=lambda x: x[0])
    for _ in range(rng.choice([0, 0, 1, 2])):
        cells.insert(rng.randrange(len(cells) + 1), ("line", [rng.randrange(nx), rng.randrange(nx) + 1]))
    g = GM(pts, cells, blocks_of(rng, cells), 0)
    if rng.random() < 0.5:
        ax = rng.choice([0, 1, 2])
        g.pts = [tuple(list(p[:ax]) + [4] + list(p[ax:])) for p in pts]
    dup = rng.random() < 0.4
    return (duplicate(rng, g, True), True) if dup else (g, False)


def run(c):
    rng = c.rng
    r = c.mc("MeshEditMC", EDITMC % (c.quick(3, 4), 1), name="edits of a tiny mesh")
    hists = r.tagged("HIST")
    hists.sort(key=str)
    rng.shuffle(hists)
    groups = []
    for h in hists[:c.quick(1200, 6000)]:
        H = Hist(c, rng, model_mesh(), False)
        for s in h:
            if s["op"] == "set":
                H.set(s["name"], [x == 1 for x in s["cells"]])
            elif s["op"] == "prune":
                H.prune(rng.random() < 0.5)
            else:
                H.extrude(rng.random() < 0.5, [rng.choice([1, 2]) for _ in range(int(s["name"]))])
        groups.append(H.events)
        c.count("model_histories")
    r = c.mc("MeshEditMC", EDITMC % (3, 2), name="kinds of edits")
    kinds = [[s["op"] for s in h] for h in r.tagged("HIST")]
    kinds.sort()
    for h in rng.sample(kinds, c.quick(700, 5000)):
        shuffled = False
        unit = rng.choice([1.0] * 5 + [2.0 ** -10, 2.0 ** -20, 2.0 ** 15])
        k = rng.random()
        if k < 0.55:
            g = build(rng, maxvox=3, maxcells=9)
            shuffled = rng.random() < 0.2
            if shuffled or rng.random() < 0.3:
                g = duplicate(rng, g, shuffled)
            g.k = 0
            m = decorate(rng, g.mesh())
            H = Hist(c, rng, m, not shuffled, unit=unit)
        elif k < 0.9:
            g, shuffled = flat(rng)
            H = Hist(c, rng, decorate(rng, g.mesh()), False, unit=unit)
        else:
            m = decorate(rng, toughio.meshmaker.cylindric_grid([float(rng.randint(1, 4)) for _ in range(rng.randint(1, 4))],
                                                               [float(2 * rng.randint(1, 3)) for _ in range(rng.randint(1, 3))],
                                                               layer=rng.random() < 0.5))
            m.points[:, 1] *= 2.0
            H = Hist(c, rng, m, True, cyl=True)
        H.shuffled = shuffled
        for op in h:
            H.do(op)
            if rng.random() < 0.15:
                H.look()
        groups.append(H.events)
        c.count("histories")
    # everything that is refused, on a flat mesh and on a solid one
    for solid in (False, True):
        i = 0
        while True:
            H = Hist(c, rng, decorate(rng, flat(rng)[0].mesh() if not solid else build(rng, maxvox=3, maxcells=9).mesh()), False)
            if not H.bad(i):
                break
            groups.append(H.events)
            i += 1
    c.sample(lambda: {"ops": [e["op"] for e in groups[-1]]})
    bad = c.trace("MeshEditTrace", None, groups=groups)
    report(c, bad, ("op", "err", "name", "idx", "hs", "axis"))
    c.assumptions += ["lattice coordinates; averages compared for integer data"]
