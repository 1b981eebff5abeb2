"""Random meshes with exact geometry: lattice points, planar faces, any cell types."""
import itertools

import numpy

BASE = {
    "hexa": [("hexahedron", (0, 1, 2, 3, 4, 5, 6, 7))],
    "wedge": [("wedge", (0, 1, 2, 4, 5, 6)), ("wedge", (0, 2, 3, 4, 6, 7))],
    "pyr": [("pyramid", (0, 1, 2, 3, 8)), ("pyramid", (4, 7, 6, 5, 8)), ("pyramid", (0, 4, 5, 1, 8)),
            ("pyramid", (1, 5, 6, 2, 8)), ("pyramid", (2, 6, 7, 3, 8)), ("pyramid", (0, 3, 7, 4, 8))],
    "tet5": [("tetra", (0, 1, 3, 4)), ("tetra", (1, 2, 3, 6)), ("tetra", (1, 4, 5, 6)),
             ("tetra", (3, 4, 6, 7)), ("tetra", (1, 3, 4, 6))],
    "tet6": [("tetra", (0, 1, 2, 6)), ("tetra", (0, 2, 3, 6)), ("tetra", (0, 3, 7, 6)),
             ("tetra", (0, 7, 4, 6)), ("tetra", (0, 4, 5, 6)), ("tetra", (0, 5, 1, 6))],
    "mixed": [("pyramid", (0, 1, 2, 3, 4)), ("pyramid", (1, 2, 6, 5, 4)), ("pyramid", (2, 3, 7, 6, 4))],
    "wedgetet": [("wedge", (0, 1, 2, 4, 5, 6)), ("pyramid", (0, 4, 6, 2, 3)), ("tetra", (4, 6, 7, 3))],
}
REF = {
    "hexahedron": [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)],
    "wedge": [(0, 0), (1, 0), (2, 0), (0, 1), (1, 1), (2, 1)],
}


def symmetries(t):
    """Renumberings of the nodes of a cell of type t that leave it the same cell."""
    if t == "tetra":
        return list(itertools.permutations(range(4)))
    if t == "pyramid":
        out = []
        for s in range(4):
            r = [(k + s) % 4 for k in range(4)]
            out += [tuple(r) + (4,), tuple(r[::-1]) + (4,)]
        return out
    if t == "wedge":
        out = []
        for p in itertools.permutations(range(3)):
            out += [p + tuple(3 + i for i in p), tuple(3 + i for i in p) + p]
        return out
    ref = [numpy.array(x) for x in REF["hexahedron"]]
    out = []
    for perm in itertools.permutations(range(3)):
        for fl in itertools.product((0, 1), repeat=3):
            q = [tuple(int(abs(f - x[p])) for p, f in zip(perm, fl)) for x in ref]
            out.append(tuple(REF["hexahedron"].index(x) for x in q))
    return out


SYM = {t: symmetries(t) for t in ("tetra", "pyramid", "wedge", "hexahedron")}


class GM:
    """pts: integer lattice; cells: [(type, nodes)]; blocks: sizes; k: power of ten of the scale."""

    def __init__(self, pts, cells, blocks, k=0, arrays=None):
        self.pts, self.cells, self.blocks, self.k = pts, cells, blocks, k

    def points(self):
        p = numpy.array(self.pts, dtype=float)
        return p * 10.0 ** self.k if self.k >= 0 else p / 10.0 ** -self.k

    def block_list(self):
        out, i = [], 0
        for n in self.blocks:
            out.append((self.cells[i][0], numpy.array([c[1] for c in self.cells[i:i + n]])))
            i += n
        return out

    def mesh(self, **kw):
        import toughio
        return toughio.Mesh(points=self.points(), cells=self.block_list(), **kw)

    def enc(self):
        return {"pts": [[int(x) for x in p] for p in self.pts],
                "cells": [{"t": t, "n": [int(x) for x in n]} for t, n in self.cells], "k": self.k}


def blocks_of(rng, cells, split=0.25):
    """Sizes of blocks: a block ends where the type changes, and sometimes elsewhere."""
    out = []
    for i, c in enumerate(cells):
        if i and c[0] == cells[i - 1][0] and rng.random() > split:
            out[-1] += 1
        else:
            out.append(1)
    return out


def build(rng, maxvox=6, kinds=None, maxcells=36, affine=True, holes=True, shuffle=True, offset=True, one=None, kmax=3):
    """A random mesh."""
    kinds = kinds or ["hexa", "hexa", "wedge", "wedge", "pyr", "tet5", "tet6", "mixed", "wedgetet"]
    if one or rng.random() < 0.25:
        kinds = [one or rng.choice(kinds)]
    while True:
        n = [rng.randint(1, 3) for _ in range(3)]
        if n[0] * n[1] * n[2] <= maxvox:
            break
    ax = []
    for d in range(3):
        x = [0]
        for _ in range(n[d]):
            x.append(x[-1] + 2 * rng.randint(1, 3))
        ax.append(x)
    tilt = affine and rng.random() < 0.35
    taper = [rng.choice([1, 1, 2, 3]) for _ in ax[2]] if affine and not tilt and rng.random() < 0.4 else [1] * len(ax[2])
    slopes = [(0, 0)]
    for j in range(n[2]):
        # planes must not cross: small slopes, tall layers
        slopes.append((rng.choice([0, 0, 1, -1]), rng.choice([0, 0, 1, -1])))
    if tilt:
        h = ax[0][-1] + ax[1][-1]
        ax[2] = [0]
        for _ in range(n[2]):
            ax[2].append(ax[2][-1] + 2 * (h + rng.randint(1, 3)))
    idx = {}
    pts = []
    for k, j, i in itertools.product(range(n[2] + 1), range(n[1] + 1), range(n[0] + 1)):
        idx[i, j, k] = len(pts)
        # layers that widen or narrow: the sides stay planar, their edges are parallel
        x, y, z = ax[0][i] * taper[k], ax[1][j] * taper[k], ax[2][k]
        if tilt:
            z += slopes[k][0] * x + slopes[k][1] * y
        pts.append((x, y, z))
    cells = []
    vox = list(itertools.product(range(n[2]), range(n[1]), range(n[0])))
    if holes and len(vox) > 2 and rng.random() < 0.3:
        vox = [v for v in vox if rng.random() > 0.2] or vox[:1]
    for k, j, i in vox:
        v = [idx[i + a, j + b, k + c] for a, b, c in REF["hexahedron"]]
        kind = rng.choice(kinds)
        s = rng.choice(SYM["hexahedron"]) if not (tilt and kind.startswith("wedge")) else range(8)
        w = [v[q] for q in s]
        if kind == "pyr":
            m = [sum(pts[q][d] for q in v) for d in range(3)]
            w.append(len(pts))
            pts.append(tuple(int(round(x / 8)) for x in m))
        for t, loc in BASE[kind]:
            c = [w[q] for q in loc]
            r = rng.choice(SYM[t])
            cells.append((t, [c[q] for q in r]))
    if len(cells) > maxcells:
        cells = cells[:maxcells]
    if affine and not tilt and rng.random() < 0.6:
        while True:
            A = [[rng.choice([0, 0, 1, -1, 2]) for _ in range(3)] for _ in range(3)]
            d = round(numpy.linalg.det(A))
            if d and abs(d) <= 4:
                break
        pts = [tuple(sum(A[r][c] * p[c] for c in range(3)) for r in range(3)) for p in pts]
    elif rng.random() < 0.4:
        f = [rng.choice([1, -1]) for _ in range(3)]
        p3 = rng.sample(range(3), 3)
        pts = [tuple(f[d] * p[p3[d]] for d in range(3)) for p in pts]
    if offset and rng.random() < 0.5:
        o = [rng.choice([0, rng.randint(-50, 50), rng.randint(-3000, 3000)]) for _ in range(3)]
        pts = [tuple(p[d] + o[d] for d in range(3)) for p in pts]
    used = sorted({q for _, c in cells for q in c})
    if rng.random() < 0.2:
        used = list(range(len(pts)))
    if shuffle and rng.random() < 0.8:
        rng.shuffle(used)
    new = {q: i for i, q in enumerate(used)}
    pts = [pts[q] for q in used]
    cells = [(t, [new[q] for q in c]) for t, c in cells]
    if shuffle:
        r = rng.random()
        if r < 0.4:
            rng.shuffle(cells)
        elif r < 0.7:
            ts = list({t for t, _ in cells})
            rng.shuffle(ts)
            cells = [c for t in ts for c in cells if c[0] == t]
    k = rng.choice([0, 0, 0, 1, -1, -2, 2, rng.randint(-kmax, kmax)])
    return GM(pts, cells, blocks_of(rng, cells), k)
