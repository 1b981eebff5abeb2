"""M08: time series files."""
import copy
import os

import toughio
from core import enc_num
from meshes import *
from checks.m07 import vals

MC = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxSteps=%d\nTimes=%s\nOff=%d\nEmit=%d\n"
      "INVARIANTS Permutes Sorted Stable TextOrder Incremental Emitted Lengths\n")


def flat(cells):
    return [dict(t=t, n=[int(x) for x in r]) for t, d in cells for r in d]


def arr(rng, n, seen):
    """An array that no other step has."""
    k = rng.randrange(4)
    if k == 0:
        a = numpy.array([rng.randint(-99, 999) for _ in range(n)])
    elif k == 1:
        a = numpy.array([[rng.uniform(-5, 5) for _ in range(3)] for _ in range(n)])
    else:
        a = numpy.array([rng.uniform(-1, 1) * 10.0 ** rng.randint(-12, 12) for _ in range(n)])
    return a


def lists(rng, mesh, np_, nc, keys=None):
    kp = rng.sample(["p", "q", "T"], rng.randint(1, 2))
    kc = rng.sample(["u", "v", "material", "T"], rng.randint(1, 3))
    some = rng.random() < 0.2
    pd = None if np_ < 0 else [{k: arr(rng, len(mesh.points), 0) for k in kp if not (some and rng.random() < 0.3)} for _ in range(np_)]
    cd = None if nc < 0 else [{k: arr(rng, mesh.n_cells, 0) for k in kc if not (some and rng.random() < 0.3)} for _ in range(nc)]
    return pd, cd


def clean():
    for f in os.listdir("."):
        if os.path.isfile(f):
            os.remove(f)


def some_mesh(rng):
    if rng.random() < 0.3:
        m = toughio.meshmaker.structured_grid([1.0] * rng.randint(1, 3), [2.0, 1.0])
        if rng.random() < 0.5:
            m.points = m.points[:, :2]
        return m
    return build(rng, maxvox=3, maxcells=8).mesh()


def call(c, rng, evs, mesh, np_, nc, nt, ts):
    pd, cd = lists(rng, mesh, np_, nc)
    wrap = rng.choice([list, list, tuple])
    times = None if nt < 0 else rng.choice([list, tuple, numpy.array])(ts)
    pts, cells = mesh.points, rng.choice([mesh.cells, [(b.type, b.data) for b in mesh.cells]]) if False else mesh.cells
    kw = {}
    if pd is not None or rng.random() < 0.5:
        kw["point_data"] = None if pd is None else wrap(pd)
    if cd is not None or rng.random() < 0.5:
        kw["cell_data"] = None if cd is None else wrap(cd)
    if times is not None:
        kw["time_steps"] = times
    e = dict(ev="call", np=np_, nc=nc, nt=nt, ts=[enc_num(x) for x in ts], pts=vals(pts), cells=flat([(b.type, b.data) for b in cells]),
             pd=[{k: vals(v) for k, v in d.items()} for d in pd or []], cd=[{k: vals(v) for k, v in d.items()} for d in cd or []],
             file=[], rpts=[], rcells=[], touched="0", same="1")
    was = repr((kw, pts.tolist()))
    old = rng.random() < 0.3
    if old:
        open("s.xdmf", "w").write("old")
    name = "s.xdmf"
    _, e["err"] = guarded(lambda: toughio.write_time_series(name, pts, cells, **kw))
    e["touched"] = "1" if os.listdir(".") != (["s.xdmf"] if old else []) or (old and open("s.xdmf").read() != "old") else "0"
    e["same"] = "1" if repr((kw, pts.tolist())) == was else "0"
    if not e["err"]:
        r, e["err"] = guarded(lambda: toughio.read_time_series(name))
        if r:
            p, cl, rp, rc, rt = r
            e["rpts"] = vals(p)
            e["rcells"] = flat([(b.type, b.data) for b in cl])
            e["file"] = [dict(t=enc_num(float(t)), pd={k: vals(v) for k, v in a.items()}, cd={k: vals(v) for k, v in b.items()})
                         for a, b, t in zip(rp, rc, rt)] if len(rp) == len(rc) == len(rt) else []
    clean()
    evs.append(e)
    c.count("accepted" if not e["err"] else "refused")


def run(c):
    rng = c.rng
    r = c.mc("SeriesMC", MC % (4, "{0, 1, 3}", 1, 1), name="lists of times")
    c.mc("SeriesMC", MC % (c.quick(5, 6), "{0, 9, 12, 112}", 12, 0), name="longer lists of times")
    evs = []
    for ts in r.tagged("TIMES"):
        mesh = some_mesh(rng)
        n = len(ts)
        s = rng.choice([1, 1.0, 0.1, 1e6, 3.6e-5])
        how = rng.randrange(3)
        call(c, rng, evs, mesh, n if how != 1 else rng.choice([-1, 0]), n if how != 2 else rng.choice([-1, 0]), n, [t * s for t in ts])
    for d in r.tagged("LEN"):
        call(c, rng, evs, some_mesh(rng), d["np"], d["nc"], d["nt"], [float(x) for x in range(max(0, d["nt"]))])
    for _ in range(c.quick(60, 500)):
        n = rng.choice([1, 2, 5, 12, 20, 40])
        pool = [rng.uniform(-1, 1) * 10.0 ** rng.randint(-6, 12) for _ in range(rng.choice([2, 5, n]))]
        if rng.random() < 0.4:       # times that only differ in their last digits
            pool += [float(numpy.nextafter(x, rng.choice([-1, 1]) * numpy.inf)) for x in pool[:3]] + [x * (1.0 + 1e-9) for x in pool[:3]]
        ts = [rng.choice(pool) for _ in range(n)]
        if rng.random() < 0.4:
            ts.sort()
        nt = -1 if rng.random() < 0.25 else n
        how = rng.randrange(3)
        call(c, rng, evs, some_mesh(rng), n if how != 1 else -1, n if how != 2 else -1, nt, ts if nt > 0 else [])
    m = toughio.meshmaker.structured_grid([1.0, 1.0], [1.0])
    ok = [{"u": numpy.array([1.0, 2.0])}]
    for a, kw in [((1, m.points, m.cells), dict(cell_data=ok)), ((None, m.points, m.cells), dict(cell_data=ok)),
                  (("s.xdmf", m.points, m.cells), dict(cell_data=ok[0])), (("s.xdmf", m.points, m.cells), dict(point_data="a", cell_data=ok)),
                  (("s.xdmf", m.points, m.cells), dict(cell_data=ok, time_steps=1.0)), (("s.xdmf", m.points, m.cells), dict(cell_data=ok, time_steps="a"))]:
        _, err = guarded(lambda: toughio.write_time_series(*a, **kw))
        evs.append(dict(ev="types", err=err, same="1", touched="1" if os.listdir(".") else "0"))
        clean()
    _, err = guarded(lambda: toughio.read_time_series(3))
    evs.append(dict(ev="types", err=err, same="1", touched="0"))
    c.sample(lambda: {"times": evs[5]["ts"], "read": [s["t"] for s in evs[5]["file"]]})
    report(c, c.trace("SeriesTrace", evs), ("err", "np", "nc", "nt", "ts"))
    c.assumptions += ["times are finite; arrays are scalar or 3-component and numeric"]
