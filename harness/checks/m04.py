"""M04: the INCON file of a mesh."""
from meshes import *


def num(rng):
    r = rng.random()
    if r < 0.15:
        return 0.0
    x = rng.choice([1, 1, -1]) * float("%.*e" % (rng.randint(0, 15), rng.uniform(1, 10) * 10.0 ** rng.choice([0, 5, -3, 2, 7, -12, rng.randint(-60, 60)])))
    return x


def tie(x, n):
    """Is rounding x to n digits a tie (never given)?"""
    s = enc_num(float(x))
    d = s.lstrip("f-").split("E")[0]
    return len(d) > n and d[n:] == "5"


def safe(rng, *digits):
    while True:
        x = num(rng)
        if not any(tie(x, n) for n in digits):
            return x


def flat(rng, n):
    """A mesh of n cells (only its number of cells matters)."""
    pts = [(i, a, b) for i in range(n + 1) for a, b in ((0, 0), (1, 0), (1, 1), (0, 1))]
    cells = [("hexahedron", [4 * i + k for k in range(4)] + [4 * i + 4 + k for k in range(4)]) for i in range(n)]
    return GM(pts, cells, blocks_of(rng, cells), 0)


def run(c):
    rng = c.rng
    c.mc("NumberMC", 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxDigits=%d DigitSet={"0", "4", "9"}\n'
         'INVARIANTS Fits ReadBack Idempotent SameText FewDigits\n' % c.quick(5, 7), name="numbers in fields")
    evs = []
    for it in range(c.quick(300, 3000)):
        n = rng.choice([1, 2, 3, 5, 8, 13])
        g = flat(rng, n) if rng.random() < 0.7 else build(rng, maxvox=6, maxcells=n)
        n = len(g.cells)
        w = rng.choice([1, 2, 3, 4, 4, 4, 5, 6, 8])
        style = rng.choice(["dense", "sparse", "rows", "negative", "none", "absent"])
        ic = numpy.full((n, w), -1.0e9)
        for i in range(n):
            if style == "none":
                continue
            if style == "rows" and rng.random() < 0.5:
                continue
            for k in range(w):
                if style == "sparse" and rng.random() < 0.5:
                    continue
                x = safe(rng, 14)
                ic[i, k] = -abs(x) if style == "negative" else x
                if ic[i, k] <= -1.0e9:
                    ic[i, k] = -5.0
        por = numpy.array([abs(safe(rng, 10)) for _ in range(n)]) if rng.random() < 0.4 else None
        perm = None
        if rng.random() < 0.4:
            q = rng.choice([1, 1, 3])
            perm = numpy.array([[safe(rng, 4, 3) for _ in range(q)] for _ in range(n)])
        if por is None and perm is None and rng.random() < 0.3:
            por = numpy.array([float(i) for i in range(n)]) * 0.015625 if style == "rows" else None
        if w > 4 and (por is not None or perm is not None or style != "none"):
            # a blank second record cannot be told from the end of the block: not given
            for i in range(n):
                if (por is not None or perm is not None or (ic[i] > -1e9).any()) and not (ic[i, 4:] > -1e9).any():
                    ic[i, rng.randrange(4, w)] = abs(safe(rng, 14))
        ll = rng.choice([0, 0, 5, 6, 7, 8, 9])
        absent = style == "absent"
        e = dict(ev="incon", ll=ll, ic=[[enc_num(float(x)) for x in r] for r in ic] if not absent else [["f-1E9"] * 4] * n,
                 por=[enc_num(float(x)) for x in por] if por is not None else [],
                 perm=[[enc_num(float(x)) for x in r] for r in perm] if perm is not None else [],
                 lines=[], written="0")
        flatperm = perm is not None and perm.shape[1] == 1

        def mesh():
            m = g.mesh(cell_data={"material": numpy.ones(n, int)}, field_data={"dfalt": numpy.array([1, 3])})
            if ll:
                m.label_length = ll
            if not absent:
                m.add_cell_data("initial_condition", ic)
            if por is not None:
                m.add_cell_data("porosity", por)
            if perm is not None:
                m.add_cell_data("permeability", perm[:, 0] if flatperm else perm)
            return m
        for f in ("INCON", "MESH", "out/INCON", "x.inc"):
            if os.path.exists(f):
                os.unlink(f)
        os.makedirs("out", exist_ok=True)
        via = rng.choice(["incon", "incon", "tough", "toughdir"])
        path = {"incon": rng.choice(["INCON", "x.inc"]), "tough": "INCON", "toughdir": "out/INCON"}[via]

        def export(m):
            if via == "incon":
                m.write_incon(path) if path != "INCON" or rng.random() < 0.5 else m.write_incon()
            elif via == "tough":
                m.write_tough("MESH", incon=True)
            else:
                m.write_tough("out/MESH", incon=True)

        def call():
            m = mesh()
            a = fingerprint(m)
            export(m)
            w = os.path.exists(path)
            first = digest(path) if w else ""
            ls = lines_of(path) if w else []
            if w:
                os.unlink(path)
            export(m)
            return w, ls, first, digest(path) if os.path.exists(path) else "", a, fingerprint(m)
        r, e["err"] = guarded(call)
        if r:
            e["written"], e["lines"] = "1" if r[0] else "0", r[1]
            evs.append(dict(ev="again", err="", a=r[2], b=r[3], before=r[4], after=r[5]))
        e["_via"] = via
        evs.append(e)
        c.count("style_" + style)
        c.count("variables_%d" % w)
        c.count("cells", n)
        # arrays that do not fit the mesh
        if rng.random() < 0.25 and not absent and (ic > -1e9).any():
            with open(path, "w") as f:
                f.write("before\n")
            d = digest(path)
            bad = rng.choice(["por_len", "por_dim", "perm_len", "perm_shape", "perm_dim"])

            def reject():
                m = mesh()
                if bad == "por_len":
                    m.cell_data["porosity"] = numpy.ones(n + 1)
                elif bad == "por_dim":
                    m.cell_data["porosity"] = numpy.ones((n, 2))
                elif bad == "perm_len":
                    m.cell_data["permeability"] = numpy.ones(n + 2)
                elif bad == "perm_shape":
                    m.cell_data["permeability"] = numpy.ones((n, 2))
                else:
                    m.cell_data["permeability"] = numpy.ones((n, 3, 1))
                export(m)
            _, err = guarded(reject)
            evs.append(dict(ev="reject", err=err, touched="0" if digest(path) == d else "1", _bad=bad, _via=via))
            c.count("reject_" + bad)
    c.sample(lambda: {"file": [e for e in evs if e["ev"] == "incon" and e["lines"]][0]["lines"][:6]})
    report(c, c.trace("MeshToughTrace", evs), ("err", "_via", "_bad", "ic", "por", "perm", "ll", "lines", "written"))
    c.assumptions += ["values whose text fits 20 columns; no exact rounding ties"]
