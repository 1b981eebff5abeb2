"""M06: grids."""
import toughio
from meshes import *

GRIDMC = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS N=%d W=%d\nINVARIANTS Bijective TopDown Tiling NodeCount\n")


def inc(rng, n=None):
    n = n or rng.choice([1, 1, 2, 2, 3, 3, 4])
    if rng.random() < 0.2:
        return [rng.randint(1, 6)] * n
    return [rng.randint(1, 9) for _ in range(n)]


def like(rng, xs, s):
    """The same increments as list, tuple or array, in real units."""
    v = [x * s if s >= 1 else x / round(1 / s) for x in xs]
    if s == 1.0 and rng.random() < 0.3:
        v = [int(x) for x in xs]
    return rng.choice([list, tuple, numpy.array])(v)


def q4(x, s):
    x = float(x) / s * 1e4
    return int(round(x)) if abs(x) < 2e9 else 2000000000


def obs(m, s, conn=True):
    p = numpy.asarray(m.points)
    cells = [{"t": b.type, "n": [int(x) for x in r]} for b in m.cells for r in b.data]
    return dict(pts=[[q4(x, s) for x in r] for r in p], cells=cells,
                conn=[[int(x) for x in r] for r in m.connections] if conn else [],
                mats=[str(x) for x in m.materials])


def name(rng):
    """Name of the material, and how it is given."""
    mat = rng.choice(["dfalt", "dfalt", "ROCK1", "sand"])
    return mat, {} if mat == "dfalt" and rng.random() < 0.7 else {"material": mat}


def run(c):
    rng = c.rng
    c.mc("GridMC", GRIDMC % c.quick((2, 2), (3, 2)), name="product grids")
    evs = []
    scales = [1.0, 1.0, 10.0, 0.1, 0.01, 1000.0]
    for _ in range(c.quick(260, 1500)):
        dim3 = rng.random() < 0.75
        big = rng.random() < 0.1
        I = [inc(rng, rng.randint(3, 6) if big else None) for _ in range(3 if dim3 else 2)]
        s = rng.choice(scales)
        layer = rng.random() < 0.5
        org = None if rng.random() < 0.4 else [rng.choice([0, rng.randint(-30, 30), rng.randint(-3000, 3000)]) for _ in I]
        mat = rng.choice(["dfalt", "ROCK1", "sand"])
        o = org or ([0, 0, -sum(I[2])] if dim3 else [0, 0])
        kw = {}
        if org:
            kw["origin"] = like(rng, org, s)
        if layer or rng.random() < 0.3:
            kw["layer"] = layer
        if mat != "dfalt":
            kw["material"] = mat
        e = dict(ev="grid", inc=I, org=o, layer="1" if layer else "0", mat=mat, pts=[], cells=[], conn=[], mats=[])

        def call():
            m = toughio.meshmaker.structured_grid(*[like(rng, x, s) for x in I], **kw)
            return obs(m, s, dim3)
        r, e["err"] = guarded(call)
        e.update(r or {})
        evs.append(e)
        c.count("grids_3d" if dim3 else "grids_2d")
        c.count("layered" if layer else "columns")
    for _ in range(c.quick(80, 500)):
        C, o = [], []
        for d in range(3):
            n = rng.choice([1, 2, 3, 4])
            ed = [rng.randint(-40, 40)]
            for _ in range(n):
                ed.append(ed[-1] + 2 * rng.randint(1, 4))
            o.append(ed[0])
            C.append([(a + b) // 2 for a, b in zip(ed, ed[1:])])
        s = rng.choice([1.0, 0.1, 10.0])
        unit = {1.0: 1, 0.1: 10}.get(s)
        if unit is None:
            s, unit = 1.0, 1
        pts = [(x, y, z) for x in C[0] for y in C[1] for z in C[2]]
        if rng.random() < 0.5:
            rng.shuffle(pts)
        layer = rng.random() < 0.5
        mat, named = name(rng)
        e = dict(ev="voxel", given=[list(p) for p in pts], org=o, unit=unit, layer="1" if layer else "0", mat=mat,
                 pts=[], cells=[], conn=[], mats=[])
        P = numpy.array(pts) * s if s == 1.0 else numpy.array(pts) / 10.0
        P = rng.choice([P, P.tolist()])

        def call():
            m = toughio.meshmaker.voxelize(P, like(rng, o, s), layer=layer, **named)
            return obs(m, s)
        r, e["err"] = guarded(call)
        e.update(r or {})
        evs.append(e)
        c.count("voxelized")
    for _ in range(c.quick(120, 700)):
        dr, dz = inc(rng), inc(rng)
        k = rng.choice([0, 0, 1, -1, 2])
        s = 10.0 ** k
        layer = rng.random() < 0.5
        oz = rng.choice([None, None, 0, rng.randint(-200, 50), rng.randint(-200, 50)])
        mat, named = name(rng)
        e = dict(ev="cyl", dr=dr, dz=dz, oz=-sum(dz) if oz is None else oz, layer="1" if layer else "0", mat=mat, mats=[], pts=[], cells=[],
                 faces=[], areas=[], vols=[])
        kw = dict(named, **({} if oz is None else {"origin_z": float(oz * s) if k >= 0 else oz / 10.0 ** -k}))

        def call():
            m = toughio.meshmaker.cylindric_grid(like(rng, dr, s), like(rng, dz, s), layer=layer, **kw)
            o = obs(m, s, False)
            m.write_tough("MESH", nodal_distance=rng.choice(["line", "orthogonal"]))
            return dict(pts=o["pts"], cells=o["cells"], mats=o["mats"], faces=[[[int(x) for x in f] for f in r] for r in m.faces],
                        areas=[[q4(x, s * s) for x in r] for r in m.face_areas], vols=[q4(x, s ** 3) for x in m.volumes]), lines_of("MESH")
        r, e["err"] = guarded(call)
        if r:
            e.update(r[0])
            evs.append(dict(ev="cylmesh", err="", dr=dr, dz=dz, oz=e["oz"], layer=e["layer"], k=k, lines=r[1]))
        evs.append(e)
        c.count("cylindric")
    for _ in range(c.quick(60, 400)):
        d3 = rng.random() < 0.4
        w = [rng.randint(3, 9) for _ in range(3)]
        if d3:
            P = [(x, y, z) for x in (0, w[0]) for y in (0, w[1]) for z in (0, w[2])]
        else:
            P = [(x, y, 0) for x in (0, w[0]) for y in (0, w[1])]
        for _ in range(rng.randint(0, 7)):
            p = (rng.randint(1, w[0] - 1), rng.randint(1, w[1] - 1), rng.randint(1, w[2] - 1) if d3 else 0)
            if p not in P:
                P.append(p)
        rng.shuffle(P)
        a = numpy.array(P, dtype=float)
        mat, named = name(rng)
        e = dict(ev="tri", mat=mat, mats=[], given=[list(p) for p in P], hull=6 * w[0] * w[1] * w[2] if d3 else 2 * w[0] * w[1], pts=[], cells=[])

        def call():
            m = toughio.meshmaker.triangulate(a if d3 else a[:, :2], **named)
            o = obs(m, 1.0, False)
            return [r + [0] * (3 - len(r)) for r in o["pts"]], o["cells"], m, o["mats"]
        r, e["err"] = guarded(call)
        if r:
            e["pts"], e["cells"], e["mats"] = r[0], r[1], r[3]
            if not d3:
                tri_areas = []
                for cc in e["cells"]:
                    x = [P[i] for i in cc["n"]]
                    tri_areas.append(abs((x[1][0] - x[0][0]) * (x[2][1] - x[0][1]) - (x[1][1] - x[0][1]) * (x[2][0] - x[0][0])))
                extr(c, rng, evs, r[2], tri_areas)
        evs.append(e)
        c.count("triangulated")
    for _ in range(c.quick(40, 200)):
        dx, dy = inc(rng), inc(rng)
        layer = rng.random() < 0.5
        m, err = guarded(lambda: toughio.meshmaker.structured_grid([float(x) for x in dx], [float(x) for x in dy], layer=layer))
        if not err:
            ar = [2 * x * y for y in dy for x in dx] if layer else [2 * x * y for x in dx for y in dy]
            extr(c, rng, evs, m, ar)
    g = toughio.meshmaker
    for fn in (lambda: g.structured_grid(1.0, [1.0], [1.0]), lambda: g.structured_grid([1.0], "a", [1.0]),
               lambda: g.structured_grid([1.0], [1.0], 2.0), lambda: g.structured_grid([1.0], [1.0], [1.0], origin=[0.0, 0.0]),
               lambda: g.structured_grid([1.0], [1.0], [1.0], material=2), lambda: g.structured_grid([1.0], [1.0], origin=[0.0, 0.0, 0.0]),
               lambda: g.cylindric_grid([1.0, -1.0], [1.0]), lambda: g.cylindric_grid([1.0], [0.0, 1.0]),
               lambda: g.cylindric_grid(1.0, [1.0]), lambda: g.cylindric_grid([1.0], [1.0], origin_z="a"),
               lambda: g.cylindric_grid([1.0], [1.0], material=3),
               lambda: g.voxelize(3.0, [0.0, 0.0, 0.0]), lambda: g.voxelize([1.0, 2.0, 3.0], [0.0, 0.0, 0.0]),
               lambda: g.voxelize([[1.0, 1.0, 1.0], [2.0, 2.0, 2.0]], [0.0, 0.0, 0.0]),
               lambda: g.voxelize([[1.0, 1.0, 1.0], [2.0, 1.0, 1.0]], [1.5, 0.0, 0.0]),
               lambda: g.voxelize([[1.0, 1.0, 1.0], [2.0, 2.0, 1.0], [1.0, 2.0, 1.0], [2.0, 2.0, 1.0]], [0.0, 0.0, 0.0]),
               lambda: g.voxelize([[1.0, 1.0, 1.0], [2.0, 1.0, 1.0]], [1.0, 0.0, 0.0]),
               lambda: g.voxelize([[1.0, 1.0, 1.0], [1.0, 1.0, 3.0]], [0.0, 0.0, 1.0]),
               lambda: g.voxelize([[1.0, 1.0, 1.0], [2.0, 1.0, 1.0], [1.0, 1.0, 1.0]], [0.0, 0.0, 0.0]),
               lambda: g.triangulate(1.0), lambda: g.triangulate([1.0, 2.0]), lambda: g.triangulate([[1.0], [2.0]]),
               lambda: g.triangulate(numpy.random.rand(5, 4)), lambda: g.triangulate([[0.0, 0.0], [1.0, 0.0], [0.0, 1.0]], material=1)):
        _, err = guarded(fn)
        evs.append(dict(ev="reject", err=err))
        c.count("rejected")
    c.sample(lambda: {"increments": evs[0]["inc"], "layer": evs[0]["layer"], "cells": evs[0]["cells"][:3]})
    report(c, c.trace("GridTrace", evs), ("err", "inc", "org", "layer", "dr", "dz", "given", "heights", "axis"))
    c.assumptions += ["increments are integers times a power of ten"]


def extr(c, rng, evs, m, areas2):
    h = rng.choice([1.0, 2.0, [1.0], [1.0, 2.0], [3.0, 1.0, 2.0], numpy.array([2.0, 2.0]), -2.0])
    hs = [int(x) for x in (h if numpy.ndim(h) else [h])]
    axis = 2
    e = dict(ev="ext", areas2=areas2, heights=hs, axis=axis, pts=[], cells=[])

    def call():
        if rng.random() < 0.5:
            x = m.extrude_to_3d(h, inplace=False)
        else:
            x = m
            x.extrude_to_3d(height=h, axis=axis)
        o = obs(x, 1.0, False)
        return o["pts"], o["cells"]
    r, e["err"] = guarded(call)
    if r:
        e["pts"], e["cells"] = r
    evs.append(e)
    c.count("extruded")
