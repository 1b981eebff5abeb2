"""M07: mesh files of every format."""
import itertools
import os

import toughio
from core import enc_num
from meshes import *

FMTMC = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxBlocks=%d Emit=%d\nINVARIANTS FlacOK TecOK Sharp Emitted\n")
FILES = {
    "flac3d": ["a.f3grid"], "flac3d-binary": ["a.f3grid"], "tecplot": ["a.dat", "a.tec", "A.TEC"], "avsucd": [("a.avs", "avsucd")],
    "pickle": ["a.pickle", "a.pkl"], "vtk": ["a.vtk"], "vtu": ["a.vtu"], "xdmf": ["a.xdmf"],
}
REF = {
    "line": [(0, 0, 0), (1, 0, 0)],
    "triangle": [(0, 0, 0), (1, 0, 0), (0, 1, 0)],
    "quad": [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0)],
    "tetra": [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)],
    "pyramid": [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1)],
    "wedge": [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (0, 1, 1)],
    "hexahedron": [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)],
}
TWOD = ("triangle", "quad")


def vals(a):
    return [[enc_num(x) for x in numpy.ravel(r)] for r in numpy.asarray(a)]


def obs(m):
    mats = [enc_num(x) for x in numpy.ravel(m.materials)] if "material" in m.cell_data else []
    return dict(dim=int(m.points.shape[1]), pts=vals(m.points), blocks=[dict(t=b.type, n=[[int(x) for x in r] for r in b.data]) for b in m.cells],
                cd={k: vals(v) for k, v in m.cell_data.items()}, pd={k: vals(v) for k, v in m.point_data.items()},
                fd={k: int(v[0]) for k, v in m.field_data.items()}, mats=mats, ll=enc_num(m.label_length))


def array(rng, n, meshio_):
    k = rng.randrange(7)
    sp = [-1.5, 0.0, -0.0, 1e-300, 2.5e30, -7.25e-12, 1.0 / 3.0, -123456789.125]
    if k == 0:
        return numpy.array([rng.randint(-9, 99) for _ in range(n)])
    if k == 1:
        return numpy.array([rng.choice(sp) for _ in range(n)])
    if k == 2:
        return numpy.array([[rng.uniform(-9, 9) for _ in range(3)] for _ in range(n)])
    if k == 3 and not meshio_:
        return numpy.array([rng.random() < 0.5 for _ in range(n)])
    if k == 4 and not meshio_:
        w = rng.choice([2, 2, 4, 6, 9])
        return numpy.array([[rng.randint(-5, 30) for _ in range(w)] for _ in range(n)])
    if k == 5 and not meshio_:
        return numpy.array([rng.choice([float("nan"), 1.0, -2.0, float("inf")]) for _ in range(n)])
    return numpy.array([rng.uniform(-1, 1) * 10.0 ** rng.randint(-12, 12) for _ in range(n)])


def dress(rng, mesh, meshio_):
    """Give a mesh data and materials."""
    n, types = mesh.n_cells, [b.type for b in mesh.cells for _ in b.data]
    names = ["u", "Temp", "v"] if meshio_ else ["u", "Temp", "P gas", "rate of mass flow", "v", "DX_1"]
    for k in rng.sample(names, rng.randint(0, 3)):
        mesh.add_cell_data(k, array(rng, n, meshio_))
    for k in rng.sample(names, rng.randint(0, 2)):
        mesh.add_point_data(k, array(rng, mesh.n_points, meshio_))
    how = rng.random()
    if how < 0.15:
        mesh.cell_data.pop("material", None)
        mesh.field_data.clear()
    else:
        ids = rng.sample(range(0, 30), 6)
        nm = rng.sample(["dfalt", "ROCK1", "sand", "cap rock", "a", "fault zone 2", "BOUND", "x-1", "a very long name of a rock", "Upper_confining_layer_of_clay"], 6)
        # materials of cells of different dimensions: apart, few, with the same ids, or the same
        k = rng.random()
        a, b = (ids[:3], ids[3:]) if k < 0.4 else (ids[:1], ids[1:2]) if k < 0.6 else (ids[:3], ids[1:4]) if k < 0.8 else (ids[:3], ids[:3])
        one = k >= 0.6 and rng.random() < 0.4
        mesh.cell_data["material"] = numpy.array([rng.choice(b if t in TWOD else a) for t in types])
        mesh.field_data.clear()
        if how < 0.85:
            fd = [(x, i, 3) for x, i in zip(nm, a)] + [(x, i, 2) for x, i in zip(nm[3:], b) if not one or i not in a]
            rng.shuffle(fd)
            if rng.random() < 0.2:
                fd = fd[1:]
            mesh.field_data.update({x: numpy.array([i, d]) for x, i, d in fd})
    return mesh


def small(rng, blocks, k):
    """Every cell on its own points, right- or left-handed."""
    pts, cells = [], []
    for b in blocks:
        rows = []
        for _ in range(b["k"]):
            i = len(pts)
            mir = rng.random() < 0.5
            sw = rng.sample(range(3), 3)
            for p in REF[b["t"]]:
                q = [p[d] for d in sw]
                pts.append([(-q[0] if mir else q[0]) + 3 * len(pts) - 40, q[1] - 2, q[2]])
            q0 = pts[i][0]
            for j in range(i, len(pts)):
                pts[j][0] -= 3 * (j - i)
            rows.append(list(range(i, len(pts))))
        cells.append((b["t"], numpy.array(rows)))
    m = toughio.Mesh(points=numpy.array(pts, dtype=float) * k, cells=cells)
    m._ints = pts
    return m


def random_mesh(rng, fmt="xdmf"):
    if rng.random() < 0.05:  # more cells than fit a line of any format
        n = rng.choice([(3, 3, 3), (4, 5, 2), (7, 3, 2), (5, 4, 5), (6, 7, 3)])
        m = toughio.meshmaker.structured_grid(*[[float(rng.randint(1, 5)) for _ in range(k)] for k in n])
        q = m.cells[0].data
        if rng.random() < 0.5:
            h = rng.randint(1, len(q) - 1)
            m = toughio.Mesh(points=m.points, cells=[("hexahedron", q[:h]), ("wedge", numpy.concatenate([q[h:][:, [0, 1, 2, 4, 5, 6]], q[h:][:, [0, 2, 3, 4, 6, 7]]]))])
        else:
            m = toughio.Mesh(points=m.points, cells=[("hexahedron", q)])
        m._ints = m.points.astype(int).tolist()
        return m
    if rng.random() < 0.25:
        m = toughio.meshmaker.structured_grid([float(rng.randint(1, 5)) for _ in range(rng.randint(1, 3))],
                                              [float(rng.randint(1, 5)) for _ in range(rng.randint(1, 3))],
                                              origin=[float(rng.randint(-20, 5)), 0.5])
        cells = [(b.type, b.data) for b in m.cells]
        if rng.random() < 0.6:
            q = cells[0][1]
            h = rng.randint(0, len(q))
            tri = numpy.concatenate([q[h:][:, [0, 1, 2]], q[h:][:, [0, 2, 3]]])
            cells = [("quad", q[:h]), ("triangle", tri)]
            cells = [c for c in cells if len(c[1])]
            rng.shuffle(cells)
        p = m.points if rng.random() < 0.5 else m.points[:, :2]
        return toughio.Mesh(points=p, cells=cells)
    g = build(rng, maxvox=4, maxcells=14)
    cells = g.block_list()
    if rng.random() < 0.5:
        for t, w in rng.sample([("triangle", 3), ("quad", 4), ("line", 2)] + [("vertex", 1)] * (fmt != "xdmf"), rng.randint(1, 2)):
            rows = [rng.sample(range(len(g.pts)), w) for _ in range(rng.randint(1, 3))]
            cells.insert(rng.randint(0, len(cells)), (t, numpy.array(rows)))
    m = toughio.Mesh(points=g.points() * (rng.uniform(0.1, 9.0) if rng.random() < 0.4 else 1.0), cells=cells)
    lo = numpy.min(g.pts, axis=0)
    if numpy.max(numpy.abs(g.pts - lo)) < 500:
        m._ints = (numpy.array(g.pts) - lo).tolist()
    return m


def flac_file(name):
    """Records of an ASCII grid file."""
    r = dict(z=[], q=[], zg={}, fg={})
    group = None
    for line in open(name):
        w = line.split()
        if not w or w[0] in ("*", "G"):
            group = None
        elif w[0] in "ZF":
            group = None
            r["z" if w[0] == "Z" else "q"].append(dict(id=int(w[2]), t=w[1], n=[int(x) - 1 for x in w[3:]]))
        elif w[0] in ("ZGROUP", "FGROUP"):
            group = r["zg" if w[0] == "ZGROUP" else "fg"].setdefault(line.split('"')[1], [])
        else:
            group.extend(int(x) for x in w)
    return r


def avs_file(name):
    lines = [line.split() for line in open(name) if not line.startswith("#")]
    n, k = int(lines[0][0]), int(lines[0][1])
    return dict(z=[dict(id=int(w[0]), m=enc_num(float(w[1])), t=w[2], n=[int(x) - 1 for x in w[3:]]) for w in lines[1 + n:1 + n + k]])


def tec_file(name):
    head, body, text = [], [], open(name).read().splitlines()
    for line in text:
        (body if body or line.split()[0] in ("nan", "inf") or line.strip()[0] in "+-.0123456789" else head).append(line.split())
    z = " ".join(" ".join(w) for w in head)
    num = lambda k: int(z.split(k)[1].split("=")[1].split(",")[0].split()[0])
    var = z.split("VARIABLES")[1].split("ZONE ")[0]
    loc = z.split("VARLOCATION")[1].split("[")[1].split("]")[0].split("-") if "VARLOCATION" in z else []
    ne = num("ELEMENTS")
    return dict(nodes=num("NODES"), elements=ne, zone=z.split("ZONETYPE")[1].split("=")[1].split(",")[0].split()[0], nvars=var.count('"') // 2,
                centered=[int(loc[0]), int(loc[-1])] if loc else [], values=sum(len(w) for w in body[:-ne]), rows=len(body[-ne:]))


FILE = {"flac3d": flac_file, "avsucd": avs_file, "tecplot": tec_file}


def one(c, rng, evs, mesh, fmt):
    name = rng.choice(FILES[fmt])
    name, ff = name if isinstance(name, tuple) else (name, None)
    if ff is None and fmt == name.split(".")[-1].lower() and rng.random() < 0.3:
        ff = fmt
    kw = {"binary": True} if fmt == "flac3d-binary" else {}
    if fmt == "pickle" and rng.random() < 0.5:
        kw["protocol"] = rng.choice([0, 2, 4])
    if fmt == "pickle" and rng.random() < 0.3:
        mesh.label_length = rng.choice([5, 6, 7])
    e = dict(fmt=fmt, m=obs(mesh), n={}, rerr="", werr="", same="1", file=[], g=[])
    fp = fingerprint(mesh)
    if rng.random() < 0.3:
        _, e["werr"] = guarded(lambda: mesh.write(name, file_format=ff, **kw))
    else:
        _, e["werr"] = guarded(lambda: toughio.write_mesh(name, mesh, file_format=ff, **kw))
    e["same"] = "1" if fingerprint(mesh) == fp else "0"
    if not e["werr"] and fmt in FILE and (fmt != "flac3d" or hasattr(mesh, "_ints")):
        # a file that cannot be taken apart leaves no layout to judge; the reader then decides
        try:
            e["file"] = FILE[fmt](name)
            e["g"] = getattr(mesh, "_ints", [])
            c.count("layout_" + fmt)
        except (ValueError, IndexError, AttributeError):
            e["werr"] = "file not understood"
    if not e["werr"]:
        def read():
            return obs(toughio.read_mesh(name, file_format=ff))
        r, e["rerr"] = guarded(read, timeout=5)
        if r:
            e["n"] = r
        else:
            e["rerr"] = e["rerr"] or "nothing read"
    for f in os.listdir("."):
        if os.path.isfile(f):
            os.remove(f)
    evs.append(e)
    c.count(fmt)
    if e["werr"]:
        c.count("refused_" + fmt)


def run(c):
    rng = c.rng
    seqs = c.mc("MeshFmtMC", FMTMC % (2, 1), name="block sequences").tagged("MESH")
    c.mc("MeshFmtMC", FMTMC % (c.quick(3, 4), 0), name="encoders and decoders")
    evs = []
    fm = list(FILES)
    for i, s in enumerate(seqs):
        # every sequence through the formats that reorder cells
        for fmt in ["flac3d", "flac3d-binary", "tecplot"] + c.quick([fm[3 + i % 5]], fm[3:]):
            m = small(rng, s, rng.choice([1.0, 0.5, 100.0]))
            one(c, rng, evs, dress(rng, m, fmt in ("vtk", "vtu", "xdmf")), fmt)
    for _ in range(c.quick(500, 3000)):
        fmt = rng.choice(fm + ["flac3d", "tecplot", "avsucd"])
        one(c, rng, evs, dress(rng, random_mesh(rng, fmt), fmt in ("vtk", "vtu", "xdmf")), fmt)
    c.sample(lambda: {"format": evs[0]["fmt"], "blocks": evs[0]["m"]["blocks"]})
    report(c, c.trace("MeshFmtTrace", evs), ("fmt", "err", "werr", "rerr"))
    c.assumptions += ["names of arrays and materials hold no commas or double quotes",
                      "meshio formats get scalar and 3-component numeric arrays under names without spaces",
                      "XDMF files get no vertices (the XDMF writer of meshio does not delimit them)"]
