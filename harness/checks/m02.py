"""M02: faces, connections, areas, normals and volumes."""
import numpy

from core import guarded
from meshgen import GM, blocks_of, build

BIGMC = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Base=%d N=%d\nINVARIANTS Codec Sum Product Difference Order\n"
TOPOMC = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS NVox=%d Emit=%d\n"
          "INVARIANTS Closed Fills FlatFaces AtMostTwo Symmetric InnerShared OneFacet\n")


def event(g, m=None):
    e = dict(ev="topo", err="", faces=[], conn=[], normals=[], areas=[], vols=[])
    e.update(g.enc())

    def call():
        mesh = m if m is not None else g.mesh()
        return mesh.faces, mesh.connections, mesh.face_normals, mesh.face_areas, mesh.volumes
    r, e["err"] = guarded(call)
    if e["err"]:
        return e
    faces, conn, normals, areas, vols = r
    s = 10.0 ** g.k

    def num(x, q):
        x = float(x) / q
        return int(round(x * 1e4)) if abs(x) < 2e5 else -1
    e["faces"] = [[[int(x) for x in f] for f in c] for c in faces]
    e["conn"] = [[int(x) for x in c] for c in conn]
    e["normals"] = [[[int(round(float(x) * 1e4)) if x == x else 0 for x in f] for f in c] for c in normals]
    e["areas"] = [[num(x, s * s) for x in c] for c in areas]
    e["vols"] = [num(x, s ** 3) for x in vols]
    return e


def run(c):
    rng = c.rng
    c.mc("BigMC", BIGMC % (3, c.quick(40, 90)), name="long arithmetic, base 3")
    r = c.mc("TopoMC", TOPOMC % (2, 1), name="two voxels, every splitting")
    c.mc("TopoMC", TOPOMC % (c.quick(2, 3), 0), name="rows of voxels")
    evs = []
    for m in r.tagged("MESH"):
        cells = [(x["t"], x["n"]) for x in m["cells"]]
        if rng.random() < 0.5:
            rng.shuffle(cells)
        g = GM([tuple(p) for p in m["pts"]], cells, blocks_of(rng, cells, 0.0), 0)
        evs.append(event(g))
        c.count("model_meshes")
    for _ in range(c.quick(400, 2500)):
        g = build(rng)
        if rng.random() < 0.15:  # a mesh of microns, or of planets
            g.k = rng.choice([-9, -7, -6, 7, 9])
        evs.append(event(g))
        c.count("meshes")
        c.count("cells", len(g.cells))
        c.count("blocks", len(g.blocks))
        for t in {x[0] for x in g.cells}:
            c.count("with_" + t)
    c.sample(lambda: {"mesh": evs[-1]["cells"][:6], "connections": evs[-1]["conn"][:6]})
    for e, ds in c.trace("TopoTrace", evs):
        for d in ds:
            for cl in d["clauses"]:
                c.fail(cl, {"cells": e["cells"][:8], "err": e["err"]}, e)
    c.assumptions += ["cells have planar faces and lattice coordinates times a power of ten"]
