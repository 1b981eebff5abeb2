"""What the mesh checks share."""
import hashlib
import os

import numpy

from core import enc_num, guarded
from meshgen import GM, blocks_of, build
from decks import lines_of, digest

BIGMC = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Base=%d N=%d\nINVARIANTS Codec Sum Product Difference Order\n"
TOPOMC = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS NVox=%d Emit=%d\n"
          "INVARIANTS Closed Fills FlatFaces AtMostTwo Symmetric InnerShared OneFacet\n")
NAMES = ["dfalt", "ROCK1", "sand", "a", "CAP", "b2", "BOUND", "clay1", "r_1", "Z9", "TOPBC", "x y", "p  q"]


def materials(rng, n):
    """Material ids and field data of n cells, and the material of each cell as the library names it."""
    k = rng.randint(1, 4)
    names = rng.sample(NAMES, k)
    ids = rng.sample(range(0, 40), k)
    data = numpy.array([rng.choice(ids) for _ in range(n)])
    if rng.random() < 0.12:
        return data, {}, ["i%d" % x for x in data]
    fd = {a: numpy.array([b, 3]) for a, b in zip(names, ids)}
    byid = {b: a for a, b in zip(names, ids)}
    return data, fd, ["s" + byid[x] for x in data]


def fingerprint(mesh):
    """Everything a mesh holds, as text."""
    def t(a):
        a = numpy.asarray(a)
        return (str(a.dtype), a.shape, a.tolist())
    return hashlib.sha1(repr([
        t(mesh.points), [(b.type, t(b.data)) for b in mesh.cells],
        [(k, t(v)) for k, v in mesh.point_data.items()], [(k, t(v)) for k, v in mesh.cell_data.items()],
        [(k, t(v)) for k, v in mesh.field_data.items()],
        sorted((str(k), repr(v)) for k, v in (mesh.point_sets or {}).items()),
        sorted((str(k), repr(v)) for k, v in (mesh.cell_sets or {}).items()), mesh.label_length]).encode()).hexdigest()[:16]


def report(c, bad, show=("err",)):
    for e, ds in bad:
        for d in ds:
            for cl in d["clauses"]:
                c.fail(cl, {k: e.get(k) for k in show}, {k: v for k, v in e.items() if not k.startswith("_")})
