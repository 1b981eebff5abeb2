"""M01: cell labels."""
import numpy
from core import guarded

REAL = "CONSTANTS NAlpha = 26 NNomen = 35 NNum = 10\n"


def run(c):
    # design: odometer with small wheels, exhaustively
    for i, (a, n, d, L) in enumerate(c.quick([(2, 3, 2, 5), (3, 2, 3, 5), (2, 2, 2, 6)],
                                             [(2, 3, 2, 5), (3, 2, 3, 5), (2, 2, 2, 6), (2, 4, 3, 6), (3, 3, 2, 7)])):
        c.mc("LabelsMC", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS NAlpha=%d NNomen=%d NNum=%d MCLen=%d\n"
             "INVARIANTS ClosedForm Distinct WrapOnlyAtCapacity Length_ LetterFirst DigitsTail\n" % (a, n, d, L),
             name="wheels %d/%d/%d len %d" % (a, n, d, L), workers=1)

    from toughio import Mesh

    rng = c.rng
    hist = []
    sizes = [1, 2, 3, 9, 10, 99, 100, 101, 999, 1000, 3499, 3500, 3501, 3601]
    sizes += [rng.randint(2, 130000) for _ in range(c.quick(12, 40))]
    cases = [(n, 0) for n in sizes]
    for L in (5, 6, 7, 8, 9):
        cases += [(n, L) for n in (1, 57, 101, 1001, rng.randint(1000, 60000), rng.randint(20000, 400000))]
    cases += [(122500, 0), (122501, 0), (125001, 5), (3185000, 0), (3185001, 0), (1300000, 6)]
    cases += c.quick([], [(9100000, 0)])
    for n, L in cases:
        if L == 9 and n > 100000:
            n = rng.randint(1000, 100000)

        def call():
            pts = numpy.zeros((n + 3, 3))
            pts[:, 0] = numpy.arange(n + 3)
            cells = numpy.column_stack([numpy.arange(n), numpy.arange(n) + 1, numpy.arange(n) + 2])
            k = rng.randint(1, n)
            blocks = [("triangle", cells[:k]), ("triangle", cells[k:])] if k < n else [("triangle", cells)]
            m = Mesh(points=pts, cells=blocks)
            if L:
                m.label_length = L
            return m.labels

        lab, err = guarded(call, timeout=120)
        head = {"ev": "list", "n": n, "len": L, "err": err}
        if err:
            head.update(count=0, distinct=0, minlen=0, maxlen=0)
            hist.append([head])
            continue
        lens = numpy.char.str_len(lab)
        head.update(count=len(lab), distinct=len(numpy.unique(lab)), minlen=int(lens.min()), maxlen=int(lens.max()))
        evs = [head]
        LL = L or (5 if n <= 3185000 else 6)
        per = 10 ** (LL - 3)
        starts = {0, max(0, n - 25)} | {rng.randrange(n) for _ in range(6)}
        # around every carry of every wheel that is reached
        for w in (per, per * 9, per * 10, per * 35, per * 35 * 9, per * 35 * 35, per * 35 * 35 * 25):
            for mult in (1, 2, rng.randint(1, 34)):
                if w * mult < n:
                    starts.add(max(0, w * mult - 3))
        for s in sorted(starts):
            evs.append({"ev": "at", "n": n, "len": L, "i": int(s), "label": str(lab[s])})
            for j in range(s + 1, min(s + (8 if n > 500 else 60), len(lab))):
                evs.append({"ev": "next", "n": n, "len": L, "i": int(j), "label": str(lab[j])})
        hist.append(evs)
        c.sample(lambda: {"n": n, "label_length": L, "first": str(lab[0]), "last": str(lab[-1])})
        del lab
    # one mesh whose length of labels and number of cells change while it is used
    from toughio import meshmaker
    for _ in range(c.quick(15, 80)):
        m = meshmaker.structured_grid([1.0] * rng.randint(1, 12), [1.0] * rng.randint(1, 12))
        L = 0
        for _ in range(rng.randint(2, 7)):
            k = rng.randrange(4)
            if k == 0 and m.n_cells < 2000 and m.cells[0].type == "quad":
                m.extrude_to_3d([1.0] * rng.randint(1, 12))
            elif k == 1:
                L = rng.choice([5, 6, 7, 8, 9])
                m.label_length = L
            elif k == 2 and L:
                L = 0
                m.label_length = None
            else:
                m.set_material("rock%d" % rng.randint(1, 2), [0])
            lab, err = guarded(lambda: m.labels, timeout=60)
            n, evs = m.n_cells, []
            lens = [len(x) for x in lab] if not err and len(lab) else [0]
            evs.append({"ev": "list", "n": n, "len": L, "err": err, "count": 0 if err else len(lab), "distinct": 0 if err else len(set(lab)), "minlen": min(lens), "maxlen": max(lens)})
            if not err:
                j = rng.randrange(len(lab))
                evs += [{"ev": "at", "n": n, "len": L, "i": i, "label": str(lab[i])} for i in (0, len(lab) - 1, j)]
                evs += [{"ev": "next", "n": n, "len": L, "i": i, "label": str(lab[i])} for i in range(j + 1, min(j + 6, len(lab)))]
            hist.append(evs)
    for e, ds in c.trace("LabelsTrace", None, groups=hist, consts=REAL):
        for d in ds:
            for cl in d["clauses"]:
                c.fail(cl, e, e)
    c.assumptions.append("label lists beyond 3.2 (9.1) million cells are not materialised")
