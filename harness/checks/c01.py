"""C01: commands that edit files."""
import json
import os
import shutil

import numpy
import toughio
from core import guarded
from decks import Gen, write as write_deck
from meshes import build, report

MC = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxOps=%d\nFull=%d\nEmit=%d\n"
      "INVARIANTS TypeOK Emitted\nPROPERTIES Frame Lossless Again\n")
NAMES = ["DECK", "MESH", "INCON", "SAVE", "OUT", "CO2TAB"]


def get(d):
    r = {}
    for n in NAMES:
        p = os.path.join(d, n)
        if os.path.isfile(p):
            with open(p, newline="") as f:
                r[n] = f.read().split("\n")
    return r


def put(d, fs):
    os.makedirs(d)
    for n, c in fs.items():
        if c:
            with open(os.path.join(d, n), "w", newline="") as f:
                f.write("\n".join(c))


def command(c, d, op, i, out, rng, cwd=False):
    path = lambda n: os.path.join(d, n) if n != "nowhere" else os.path.join(d, "no", "where")
    if cwd:
        path = lambda n: n if n != "nowhere" else os.path.join("no", "where")
    was = os.getcwd()
    if cwd:
        os.chdir(d)
    try:
        if op == "merge":
            _, err = guarded(lambda: toughio._cli.merge([path(i), path(out)]))
        elif op == "co2tab":
            _, err = guarded(lambda: toughio._cli.co2tab([(d if not cwd else ".") if out != "nowhere" else path("nowhere")]))
        else:
            a = [path(i), path(out)]
            if op == "reset":
                a.insert(rng.randint(0, 2), rng.choice(["--reset", "-r"]))
            _, err = guarded(lambda: toughio._cli.save2incon(a))
    finally:
        os.chdir(was)
    c.count(op + ("_refused" if err else ""))
    e = dict(ev="do", op=op, i=i, out=out, err=err, fs=get(d), extra=sorted(set(os.listdir(d)) - set(NAMES)))
    if op == "co2tab":
        p = os.path.join(os.path.dirname(toughio.__file__), "data", "CO2TAB")
        with open(p, newline="") as f:
            e["data"] = f.read().split("\n")[:]
        if out != "nowhere":
            e["out"] = "CO2TAB"
    return e


def history(c, rng, fs, ops, k):
    d = os.path.abspath("d%d" % k)
    put(d, fs)
    h = [dict(ev="dir", fs=get(d))]
    for o in ops:
        h.append(command(c, d, o["op"], o["i"], o["out"], rng, rng.random() < 0.3))
    shutil.rmtree(d)
    return h


def flat(q):
    def enc(x):
        if isinstance(x, dict):
            return {str(k): enc(v) for k, v in x.items()}
        if isinstance(x, (list, tuple, numpy.ndarray)):
            return [enc(v) for v in x]
        return repr(x)
    return {k: json.dumps(enc(v), sort_keys=True) for k, v in q.items()}


def real_parts(c, rng, k):
    """A deck, a mesh and initial conditions as the library writes them."""
    d = os.path.abspath("m%d" % k)
    os.makedirs(d)
    was = os.getcwd()
    os.chdir(d)
    m = build(rng, maxvox=4, maxcells=12).mesh()
    n = m.n_cells
    nv = rng.choice([2, 3, 4])
    with_incon = rng.random() < 0.6
    if with_incon:
        m.add_cell_data("initial_condition", numpy.array([[float("%.10g" % rng.uniform(-1e6, 1e6)) for _ in range(nv)] for _ in range(n)]))
        if rng.random() < 0.5:
            m.add_cell_data("porosity", numpy.array([round(rng.random(), 5) for _ in range(n)]))
    m.write_tough("MESH", incon=with_incon)
    p = Gen(rng, "plain").params("all", 5, True, {"rocks", "options", "selections", "solver", "times", "start"} & set(["rocks", "options", "solver", "times", "start"]))
    p.setdefault("rocks", {"dfalt": {"density": 2600.0}})
    p.setdefault("options", {"t_max": 10.0})
    for x in ("elements", "connections", "initial_conditions", "meshmaker", "coordinates"):
        p.pop(x, None)
    _, werr = guarded(lambda: toughio.write_input("DECK", p, file_format="tough"))
    os.chdir(was)
    return d, werr, n


def run(c):
    rng = c.rng
    r = c.mc("FilesMC", MC % (2, 0, 1), name="histories of commands")
    c.mc("FilesMC", MC % (c.quick(1, 2), 1, 0), name="more contents of files")
    if c.tier == "thorough":
        c.mc("FilesMC", MC % (3, 0, 0), name="longer histories", workers=8, timeout=800)
    hs, k = [], 0
    H = r.tagged("HIST")
    for x in rng.sample(H, min(len(H), c.quick(1500, 12000))):
        fs = {n: (v if v else None) for n, v in x["fs"].items()}
        ops = list(x["ops"])
        if rng.random() < 0.05:
            ops.append(dict(op="co2tab", i="DECK", out=rng.choice(["OUT", "nowhere"])))
        hs.append(history(c, rng, fs, ops, k))
        k += 1
    for _ in range(c.quick(60, 400)):
        fs, keep = {}, None
        n = rng.randint(0, 6)
        blocks = ["ROCKS----1----*", "PARAM----1", "rocks", "Param", "MULTI", "START", "TIMES", "GENER", "SELEC"]
        deck = ["title " + str(rng.random())] + [y for b in rng.sample(blocks, rng.randint(4, 9)) for y in [b] + ["  %d.E0" % rng.randint(0, 9)] * rng.randint(0, 3) + [""]]
        deck += rng.choice([["ENDCY"], ["ENDFI", "extra", "ENDCY----"], ["endcy", "ROCKS"], ["ENDCY", "", ""], []])
        fs["DECK"] = deck + ([""] if rng.random() < 0.8 else [])
        fs["MESH"] = ["ELEME----1"] + ["A%04d" % q for q in range(n)] + ["", "CONNE"] + ["A%04dA%04d" % (q, q + 1) for q in range(n)] + rng.choice([[""], ["", ""], []]) + ([""] if rng.random() < 0.8 else [])
        for q in ("INCON", "SAVE"):
            if rng.random() < 0.7:
                fs[q] = ["INCON %d" % n] + [y for z in range(n) for y in ("A%04d  +++" % z, "  %r" % rng.random())] + rng.choice([["+++", " 1 2 3"], [""], ["", ""], ["+++"], []]) + ([""] if rng.random() < 0.8 else [])
        for q in list(fs):
            if rng.random() < 0.05:
                fs[q] = rng.choice([None, [""], ["nothing", ""], ["", ""], ["INCO", ""]])
        ops = []
        for _ in range(rng.randint(1, 5)):
            op = rng.choice(["merge", "merge", "incon", "reset", "co2tab"])
            ops.append(dict(op=op, i="DECK" if op == "merge" and rng.random() < 0.8 else rng.choice(["SAVE", "SAVE", "INCON", "OUT", "MESH", "DECK"]),
                            out=rng.choice(["OUT", "OUT", "DECK", "INCON", "SAVE", "MESH", "nowhere"])))
        hs.append(history(c, rng, fs, ops, k))
        k += 1
    for _ in range(c.quick(40, 250)):
        d, werr, n = real_parts(c, rng, k)
        k += 1
        if werr:
            shutil.rmtree(d)
            continue
        h = [dict(ev="dir", fs=get(d))]
        ll = 5
        e = dict(ev="meaning", deck={}, mesh={}, incon={}, merged={}, err="")
        rd = lambda n: flat(toughio.read_input(os.path.join(d, n), file_format="tough", label_length=ll))
        p0, err0 = guarded(lambda: (rd("DECK"), rd("MESH"), rd("INCON") if os.path.exists(os.path.join(d, "INCON")) else {}))
        out = rng.choice(["OUT", "DECK", "OUT", "SAVE"])
        h.append(command(c, d, "merge", "DECK", out, rng))
        if not err0:
            q, err = guarded(lambda: rd(out))
            e.update(deck=p0[0], mesh={a: b for a, b in p0[1].items() if a != "title"}, incon={a: b for a, b in p0[2].items() if a != "title"}, merged=q or {}, err=err)
            h.append(e)
            c.count("meaning")
        else:
            c.count("unreadable_parts")
        shutil.rmtree(d)
        hs.append(h)
    c.sample(lambda: {"history": [{a: b for a, b in x.items() if a in ("op", "i", "out", "err")} for x in hs[0]], "directory": hs[0][0]["fs"]})
    report(c, c.trace("FilesTrace", None, groups=hs), ("err", "op", "i", "out", "fs", "extra"))
    c.assumptions += ["block keywords do not start the title of a deck; files are text with line ends of one character", "MESH and INCON files end their blocks"]
