"""M03: the MESH file."""
from meshes import *
from deckgen import enc_q


def slanted(rng):
    """A few long cells, whose centres are nearly, but not exactly, on a line along an axis."""
    g = build(rng, maxvox=3, kinds=["hexa"], maxcells=3, affine=False, holes=False, offset=False)
    d, e = rng.sample(range(3), 2)
    f = rng.choice([600, 1000, 10000])

    def move(p):
        p = list(p)
        p[e] += p[d] // 2
        p[d] *= f
        return tuple(p)
    g.pts = [move(p) for p in g.pts]
    return g


def run(c):
    rng = c.rng
    c.mc("TopoMC", TOPOMC % (c.quick(2, 3), 0), name="voxel meshes")
    evs = []
    for it in range(c.quick(330, 2200)):
        g = build(rng, maxvox=rng.choice([1, 4, 8, 12]), maxcells=rng.choice([1, 2, 12, 24]))
        if rng.random() < 0.08:
            g = slanted(rng)
            c.count("slanted")
        n = len(g.cells)
        mat, fd, mats = materials(rng, n)
        ll = rng.choice([0, 0, 0, 5, 6, 7, 8, 9])
        bc = [(rng.random() < 0.2) * rng.choice([1, 1, 2, -1]) for _ in range(n)] if rng.random() < 0.5 else None
        ms = sorted({m[1:] for m in mats}) if fd else sorted({int(m[1:]) for m in mats})
        enc = lambda x: "s" + x.strip() if isinstance(x, str) else "i%d" % x
        pad = lambda x: x if not isinstance(x, str) or rng.random() < 0.8 else rng.choice([x + " ", " " + x, x + "  "])
        kw = {}
        if rng.random() < 0.5 and ms:
            kw["material_name"] = {pad(m): rng.choice(["NEW%d" % i, "q", str(m) if fd else "M%d" % m, "R%d" % i]) for i, m in enumerate(rng.sample(ms, rng.randint(1, len(ms))))}
            if rng.random() < 0.3:
                kw["material_name"]["other"] = "zzz"
        if rng.random() < 0.5 and ms:
            v = [pad(x) for x in rng.sample(ms, rng.randint(1, len(ms)))] + (["other"] if rng.random() < 0.2 else [])
            kw["material_end"] = rng.choice([v, tuple(v), v[0] if fd else v])
        if rng.random() < 0.5:
            kw["nodal_distance"] = rng.choice(["line", "orthogonal"])
        if rng.random() < 0.4:
            kw["coord"] = rng.random() < 0.8
        end = kw.get("material_end", [])
        e = dict(ev="mesh", ll=ll, mats=mats, mname={enc(a): "s" + b for a, b in kw.get("material_name", {}).items()},
                 mend=[enc(x) for x in ([end] if isinstance(end, str) else end)], bc=bc or [0] * n,
                 method=kw.get("nodal_distance", "line"), coord="1" if kw.get("coord") else "0", lines=[], _kw=kw)
        e.update(g.enc())
        path = rng.choice(["MESH", "sub.dir/MESH", "m.txt"])

        def call():
            m = g.mesh(cell_data={"material": numpy.array(mat)}, field_data=dict(fd))
            if ll:
                m.label_length = ll
            if bc:
                m.add_cell_data("boundary_condition", rng.choice([numpy.array, list, lambda b: numpy.array(b, float), lambda b: numpy.array(b, bool)])(bc))
            os.makedirs("sub.dir", exist_ok=True)
            a = fingerprint(m)
            if rng.random() < 0.5:
                m.write_tough(path, **kw)
            else:
                m.write(path, file_format="tough", **kw)
            first = digest(path)
            b = fingerprint(m)
            if rng.random() < 0.3:
                m.write_tough(path, **kw)
            return lines_of(path), first, digest(path), a, b
        r, e["err"] = guarded(call)
        if r:
            e["lines"] = r[0]
            evs.append(dict(ev="again", err="", a=r[1], b=r[2], before=r[3], after=r[4]))
            if rng.random() < 0.4:
                import toughio
                L = ll or 5
                q, err = guarded(lambda: enc_q(toughio.read_mesh(path, file_format="tough", label_length=L)))
                evs.append(dict(ev="back", n=n, ll=ll, lines=r[0], Q=q or {}, err=err))
                c.count("read_back")
        evs.append(e)
        for k, v in kw.items():
            c.count("option_" + k)
        c.count("meshes")
        c.count("elements", n)
    # wrong arguments are rejected before the file is touched
    for kw in ({"nodal_distance": "foo"}, {"material_name": "a"}, {"material_end": 3}, {"incon": 1}, {"material_name": ["a"]},
               {"nodal_distance": None}):
        g = build(rng, maxvox=4, maxcells=8)
        with open("MESH", "w") as f:
            f.write("before\n")
        d = digest("MESH")
        _, err = guarded(lambda: g.mesh(cell_data={"material": numpy.ones(len(g.cells), int)}).write_tough("MESH", **kw))
        evs.append(dict(ev="reject", err=err, touched="0" if digest("MESH") == d else "1", _kw=kw))
        c.count("rejected")
    c.sample(lambda: {"file": evs[-8].get("lines", [])[:8]})
    report(c, c.trace("MeshToughTrace", evs), ("err", "_kw", "mats", "ll", "cells", "lines", "k"))
    c.assumptions += ["planar faces; material names are not numbers; coordinates are lattice points times a power of ten"]
