"""M12: meshes of meshio, gmsh and PyVista."""
import os

import meshio
import numpy
import pyvista
import toughio
from core import enc_num, guarded
from checks.m05 import mio_print, pv_print
from checks.m07 import random_mesh
from meshes import report

MC = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS NCells=%d\nNSteps=%d\nEvery=%d\nINVARIANTS Named Orders Emitted\n"
VTK = {1: 1, 3: 2, 5: 3, 9: 4, 10: 4, 12: 8, 13: 6, 14: 5, 15: 10, 16: 12, 21: 3, 22: 6, 23: 8, 24: 10, 25: 20, 26: 15, 27: 13, 28: 9, 29: 27,
       30: 6, 31: 12, 32: 18, 33: 24, 34: 7, 35: 4, 8: 4, 11: 8}
NAME = {1: "vertex", 3: "line", 5: "triangle", 9: "quad", 10: "tetra", 12: "hexahedron", 13: "wedge", 14: "pyramid", 21: "line3", 22: "triangle6",
        23: "quad8", 24: "tetra10", 25: "hexahedron20", 26: "wedge15", 27: "pyramid13", 28: "quad9", 29: "hexahedron27"}
DIM = {"vertex": 0, "line": 1, "line3": 1, "triangle": 2, "quad": 2, "triangle6": 2, "quad8": 2, "quad9": 2}
GMSH = {"line": 1, "triangle": 2, "quad": 3, "tetra": 4, "hexahedron": 5, "wedge": 6, "pyramid": 7, "line3": 8, "triangle6": 9, "vertex": 15}
WIDTH = {NAME[v]: VTK[v] for v in NAME}
NAMES = ["rock", "sand", "Well 1", "top", "left", "dfalt", "fault-2", "x"]


def rows(a):
    return [[enc_num(x) for x in numpy.ravel(r)] for r in numpy.asarray(a)]


def sets(d):
    return {k: [int(x) for x in v] for k, v in (d or {}).items()}


def csets(d):
    return {k: [[int(x) for x in b] for b in v] for k, v in (d or {}).items()}


def obs(m):
    return dict(pts=rows(m.points), blocks=[dict(t=b.type, n=[[int(x) for x in r] for r in b.data]) for b in m.cells],
                cd={k: rows(v) for k, v in m.cell_data.items()}, pd={k: rows(v) for k, v in m.point_data.items()},
                fd={k: [enc_num(x) for x in numpy.ravel(v)] for k, v in m.field_data.items()},
                mats=[enc_num(x) for x in numpy.ravel(m.materials)], ps=sets(m.point_sets), cs=csets(m.cell_sets))


def of_meshio(x):
    return dict(pts=rows(x.points), blocks=[dict(t=b.type, n=[[int(i) for i in r] for r in b.data]) for b in x.cells],
                cd={k: sum((rows(a) for a in v), []) for k, v in x.cell_data.items()}, pd={k: rows(v) for k, v in x.point_data.items()},
                sizes=[len(a) for a in next(iter(x.cell_data.values()))] if x.cell_data else [],
                fd={k: [enc_num(i) for i in numpy.ravel(v)] for k, v in x.field_data.items()}, ps=sets(x.point_sets), cs=csets(x.cell_sets))


def of_pyvista(g):
    raw, cells, i = numpy.asarray(g.cells), [], 0
    for v in g.celltypes:
        n = int(raw[i])
        cells.append(dict(v=int(v), n=[int(x) for x in raw[i + 1:i + 1 + n]]))
        i += n + 1
    return dict(pts=rows(g.points), cells=cells, pd={k: rows(g.point_arrays[k]) for k in g.point_arrays.keys()},
                cd={k: rows(g.cell_arrays[k]) for k in g.cell_arrays.keys()})


def array(rng, n):
    k = rng.randrange(5)
    if k == 0:
        return numpy.array([rng.randint(-9, 99) for _ in range(n)])
    if k == 1:
        return numpy.array([rng.choice([-1.5, 0.0, 1e-300, 2.5e30, 1.0 / 3.0]) for _ in range(n)])
    if k == 2:
        return numpy.array([[rng.uniform(-9, 9) for _ in range(3)] for _ in range(n)])
    return numpy.array([rng.uniform(-1, 1) * 10.0 ** rng.randint(-12, 12) for _ in range(n)])


def points(rng, n, d=3):
    return numpy.array([[rng.choice([float(rng.randint(-9, 9)), rng.uniform(-5, 5)]) for _ in range(d)] for _ in range(n)])


class History:
    def __init__(self, c, rng):
        self.c, self.rng, self.m, self.events = c, rng, None, []

    def step(self, op, fn, mark=lambda: "", **kw):
        """fn may return the new mesh."""
        before = mark()
        r, err = guarded(fn, timeout=10)
        if isinstance(r, toughio.Mesh):
            self.m = r
        o, oerr = guarded(lambda: obs(self.m)) if self.m is not None else ({}, "")
        same = "1" if mark() == before else "0"
        base = dict(op=op, src={}, name="", idx=[], lines=[], bytype=[])
        base.update(kw, err=err or oerr or "", obs=o or {}, same=same)
        if r is not None and not isinstance(r, toughio.Mesh):
            base["src"] = r
        self.events.append(base)
        self.c.count(op)
        return not base["err"]

    # -- sources
    def name(self):
        return self.rng.choice(["dfalt", "ROCK1", "some rock", "rock"])

    def from_meshio(self, x, name=None):
        def call():
            return toughio.from_meshio(x) if name is None else toughio.from_meshio(x, material=name)
        return self.step("from_meshio", call, lambda: mio_print(x) + repr((of_meshio(x), )), src=of_meshio(x), name=name or "dfalt")

    def from_pyvista(self, g, name=None):
        def call():
            return toughio.from_pyvista(g) if name is None else toughio.from_pyvista(g, material=name)
        return self.step("from_pyvista", call, lambda: pv_print(g), src=of_pyvista(g), name=name or "dfalt")

    # -- what is done with the mesh
    def more(self, planar):
        rng = self.rng
        for _ in range(rng.randint(1, 4)):
            k = rng.randrange(4)
            m = self.m
            if k == 0 and not any(b.type.startswith("polygon") for b in m.cells):
                if not self.step("to_pyvista", lambda: of_pyvista(m.to_pyvista()), lambda: repr(obs(m))):
                    return
            elif k == 1:
                if not self.step("to_meshio", lambda: of_meshio(m.to_meshio()), lambda: repr(obs(m))):
                    return
            elif k == 2:
                n = m.n_cells
                idx = sorted(rng.sample(range(n), rng.randint(1, n)))
                known = list(m.field_data)
                nm = rng.choice(known) if known and rng.random() < 0.6 else rng.choice(NAMES + ["new"])
                if nm in m.field_data and numpy.size(m.field_data[nm]) != 2:
                    continue
                self.set(nm, idx)
            elif planar and any(b.type in ("triangle", "quad") for b in m.cells):
                if not self.extrude():
                    return
                planar = False
        return

    def set(self, nm, idx):
        m, rng = self.m, self.rng
        sel = numpy.isin(numpy.arange(m.n_cells), idx)
        arg = rng.choice([list(idx), numpy.array(idx), sel, list(map(bool, sel))])
        return self.step("set", lambda: m.set_material(nm, arg), name=nm, idx=list(idx))

    def extrude(self):
        m = self.m
        if self.rng.random() < 0.5:
            return self.step("extrude", lambda: m.extrude_to_3d(2.0, inplace=False))
        return self.step("extrude", lambda: m.extrude_to_3d([1.0]))


def groups(rng, types):
    """Physical groups as gmsh numbers them: ids unique for each dimension."""
    pool = rng.sample(NAMES, len(NAMES))
    fd = {}
    for d in (0, 1, 2, 3):
        ids = rng.sample([1, 2, 3, 7], 2)
        for i in ids[:2 if d > 1 else 1]:
            if pool:
                fd[pool.pop()] = (i, d)
    if rng.random() < 0.3:
        fd = {k: v for k, v in fd.items() if any(DIM.get(t, 3) == v[1] for t in types)}
    items = list(fd.items())
    rng.shuffle(items)
    by = {d: [i for i, e in fd.values() if e == d] for d in range(4)}
    return dict(items), [rng.choice(by[DIM.get(t, 3)]) if by[DIM.get(t, 3)] else 1 for t in types]


def some_cells(rng, planar=False):
    """Points and blocks."""
    if planar:
        npts = rng.randint(4, 9)
        pts = points(rng, npts, 2)
        kinds = [rng.choice(["triangle", "quad", "line"]) for _ in range(rng.randint(1, 3))] + ["triangle"]
        rng.shuffle(kinds)
        if rng.random() < 0.5:
            pts = numpy.column_stack([pts, numpy.full(npts, rng.choice([0.0, 2.5]))])
    elif rng.random() < 0.4:
        m = random_mesh(rng, "")
        return m.points, [(b.type, numpy.array(b.data)) for b in m.cells]
    else:
        npts = rng.randint(28, 32)
        pts = points(rng, npts)
        kinds = [rng.choice(list(WIDTH)) for _ in range(rng.randint(1, 4))]
    return pts, [(t, numpy.array([rng.sample(range(npts), WIDTH[t]) for _ in range(rng.randint(1, 3))])) for t in kinds]


def meshio_mesh(rng, planar):
    pts, cells = some_cells(rng, planar)
    types = [t for t, a in cells for _ in a]
    cuts = numpy.cumsum([len(a) for _, a in cells])[:-1]
    cd = {k: numpy.split(array(rng, len(types)), cuts) for k in rng.sample(["u", "P gas", "gmsh:geometrical", "v"], rng.randint(0, 2))}
    pd = {k: array(rng, len(pts)) for k in rng.sample(["u", "T (C)", "w"], rng.randint(0, 2))}
    how = rng.random()
    fd, ids = groups(rng, types)
    if how < 0.65:
        items = list(cd.items())
        items.insert(rng.randint(0, len(items)), (rng.choice(["gmsh:physical", "medit:ref", "material"]), numpy.split(numpy.array(ids), cuts)))
        cd = dict(items)
    fd = {k: numpy.array(v) for k, v in fd.items()} if rng.random() < 0.75 else {}
    if rng.random() < 0.2:
        items = list(fd.items())
        items.insert(rng.randint(0, len(items)), rng.choice([("TIME", numpy.array([2.5])), ("origin", numpy.array([0.5, 1.0, 3.0])), ("CYCLE", numpy.array([12])), ("span", numpy.array([0.25, 3.0]))]))
        fd = dict(items)
    ps = {k: numpy.array(sorted(rng.sample(range(len(pts)), 2))) for k in rng.sample(["in", "out"], rng.randint(0, 2))} if rng.random() < 0.3 else None
    cs = {k: [numpy.array(sorted(rng.sample(range(len(a)), rng.randint(0, len(a)))), dtype=int) for _, a in cells] for k in rng.sample(["A", "B b"], rng.randint(1, 2))} if rng.random() < 0.3 else None
    return meshio.Mesh(points=pts, cells=cells, point_data=pd, cell_data=cd, field_data=fd, point_sets=ps, cell_sets=cs)


def pyvista_grid(rng, odd=False):
    if not odd and rng.random() < 0.2:
        # rectilinear grids cast by VTK have pixels and voxels
        ax = [numpy.cumsum([0.0] + [float(rng.randint(1, 4)) for _ in range(rng.randint(1, 3))]) for _ in range(rng.choice([2, 3]))]
        g = pyvista.RectilinearGrid(*ax).cast_to_unstructured_grid()
    else:
        n = rng.randint(28, 32)
        cells, types = [], []
        kinds = [rng.choice([5, 8, 9, 11, 12, 7] if rng.random() < 0.5 else list(VTK) + [7]) for _ in range(rng.randint(1, 4))]
        if odd:
            kinds.insert(rng.randint(0, len(kinds)), rng.choice([2, 4, 6]))
        for v in kinds:
            for _ in range(rng.randint(1, 3)):
                w = VTK.get(v) or rng.randint(3, 7)
                cells += [w] + rng.sample(range(n), w)
                types.append(v)
        g = pyvista.UnstructuredGrid(numpy.array(cells), numpy.array(types, dtype=numpy.uint8), points(rng, n))
    for k in rng.sample(["u", "P gas", "a b c"], rng.randint(0, 2)):
        g.cell_arrays[k] = array(rng, g.n_cells)
    for k in rng.sample(["u", "T (C)", "w x"], rng.randint(0, 2)):
        g.point_arrays[k] = array(rng, g.n_points)
    if rng.random() < 0.3:
        g.cell_arrays["material"] = numpy.array([rng.randint(1, 4) for _ in range(g.n_cells)])
    return g


def gmsh(rng):
    """A file of gmsh (format 2.2)."""
    planar = rng.random() < 0.4
    while True:
        pts, cells = some_cells(rng, planar)
        cells = [(t, a) for t, a in cells if t in GMSH]
        if cells:
            break
    types = [t for t, a in cells for _ in a]
    fd, ids = groups(rng, types)
    pid = sorted(rng.sample(range(1, 3 * len(pts)), len(pts))) if rng.random() < 0.3 else list(range(1, len(pts) + 1))
    out = ["$MeshFormat", "2.2 0 8", "$EndMeshFormat"]
    if rng.random() < 0.85:
        out += ["$PhysicalNames", str(len(fd))] + ['%d %d "%s"' % (d, i, k) for k, (i, d) in fd.items()] + ["$EndPhysicalNames"]
    num = lambda x: rng.choice(["%r", "%.16e"] if float("%.15g" % x) == x and x == round(x, 3) and abs(x) >= 0.25 and (x * 64) % 1 == 0 else ["%r"]) % float(x)
    out += ["$Nodes", str(len(pts))] + [" ".join([str(i)] + [num(x) for x in (list(p) + [0.0])[:3]]) for i, p in zip(pid, pts)] + ["$EndNodes"]
    out += ["$Elements", str(len(types))]
    k = 0
    for t, a in cells:
        for r in a:
            out.append(" ".join(map(str, [k + 1, GMSH[t], 2, ids[k], rng.randint(1, 9)] + [pid[i] for i in r])))
            k += 1
    return out + ["$EndElements"], planar and pts.shape[1] in (2, 3)


def run(c):
    rng = c.rng
    r = c.mc("MeshConvMC", MC % (2, 2, c.quick(200, 30)), name="materials under edits", workers=1)
    if c.tier == "thorough":
        c.mc("MeshConvMC", MC % (3, 2, 0), name="three cells", workers=8, timeout=800)
        c.mc("MeshConvMC", MC % (2, 3, 0), name="three edits", workers=8, timeout=800)
    groups_ = []
    # histories of the model
    P = numpy.array([[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [1.0, 1.0, 0.0]])
    for h in r.tagged("HIST"):
        H = History(c, rng)
        one = {"line": [0, 1], "triangle": [0, 1, 2], "tetra": [0, 1, 2, 3]}
        x = meshio.Mesh(P, [(e["t"], numpy.array([one[e["t"]]])) for e in h[0]["cells"]],
                        cell_data={rng.choice(["gmsh:physical", "material"]): [numpy.array([int(e["id"][1:])]) for e in h[0]["cells"]]},
                        field_data={k: numpy.array([int(a[1:]) for a in v]) for k, v in sorted(h[0]["fd"].items(), key=lambda _: rng.random())})
        ok = H.from_meshio(x)
        for s in h[1:]:
            if ok:
                ok = H.set(s["name"], s["idx"]) if s["op"] == "set" else H.extrude()
        groups_.append(H.events)
        c.count("model_histories")
    for _ in range(c.quick(250, 2500)):
        H = History(c, rng)
        planar = rng.random() < 0.4
        if H.from_meshio(meshio_mesh(rng, planar), H.name() if rng.random() < 0.5 else None):
            H.more(planar)
        groups_.append(H.events)
    for _ in range(c.quick(250, 2500)):
        H = History(c, rng)
        if H.from_pyvista(pyvista_grid(rng, rng.random() < 0.15), H.name() if rng.random() < 0.5 else None):
            H.more(False)
        groups_.append(H.events)
    for _ in range(c.quick(150, 1500)):
        H = History(c, rng)
        lines, planar = gmsh(rng)
        with open("a.msh", "w") as f:
            f.write("\n".join(lines) + "\n")
        if H.step("gmsh", lambda: toughio.read_mesh("a.msh"), lines=lines):
            H.more(planar)
        os.remove("a.msh")
        groups_.append(H.events)
    for _ in range(c.quick(60, 400)):
        H = History(c, rng)
        pts, cells = some_cells(rng)
        if rng.random() < 0.5:
            cells = list({t: a for t, a in cells}.items())
            arg = dict(cells)
        else:
            arg = cells
        src = dict(blocks=[dict(t=t, n=[[int(x) for x in q] for q in a]) for t, a in cells])
        m, err = guarded(lambda: toughio.Mesh(pts, arg))
        if m is None:
            H.events.append(dict(op="new", src=src, name="", idx=[], lines=[], bytype=[], err=err, obs={}, same="1"))
        else:
            by, err = guarded(lambda: [dict(t=t, n=[[int(x) for x in q] for q in a]) for t, a in m.cells_dict.items()])
            H.step("new", lambda: m, src=src, bytype=by or [])
        groups_.append(H.events)
    bad = History(c, rng)
    x = meshio_mesh(rng, False)
    g = pyvista_grid(rng)
    for f in (lambda: toughio.from_meshio(3), lambda: toughio.from_meshio(g), lambda: toughio.from_meshio(x, material=3), lambda: toughio.from_meshio(x, None),
              lambda: toughio.from_pyvista(x), lambda: toughio.from_pyvista(g, 1), lambda: toughio.from_pyvista(g, material=None),
              lambda: toughio.from_pyvista(pyvista.Plane()), lambda: toughio.from_pyvista("a.vtk")):
        bad.step("bad", f)
    groups_.append(bad.events)
    c.sample(lambda: {"gmsh": groups_[-70][0]["lines"][:12]})
    report(c, c.trace("MeshConvTrace", None, groups=groups_), ("op", "err", "name", "src"))
    c.assumptions += ["ids of materials are unique for a dimension; arrays are numeric; gmsh files of format 2.2"]
