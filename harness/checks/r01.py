"""R01: registries of file formats."""
import multiprocessing
import os
import pathlib
import random
import shutil

import numpy
import toughio
from core import guarded
from meshes import report

MC = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxReg=%d\nEmit=%d\nINVARIANTS Frame Latest Explicit Cases Unknown Emitted\n"
FILES = {"csv": ['"ELEM","P"', '"",""', '"TIME [sec]  1.0"', '"AAA00",1.0'], "petrasim": ["TIME [sec],ELEM,INDEX,P", "1.0,AAA00,1,2.0"],
         "tecplot": ["VARIABLES = X Y P", 'ZONE T="1.0 SEC" I = 1', "1. 2. 3."], "save": ["INCON", "AAA00", " 1.0", ""], "tough": ["", "@@@@@@@"], "none": ["hello"]}
PARAMS = {"title": "a", "rocks": {"dfalt": {"density": 1.0}}}


def a_mesh():
    m = toughio.Mesh(points=numpy.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 0, 1], [0, 1, 1.0]]),
                     cells=[("tetra", numpy.array([[0, 1, 2, 3]])), ("wedge", numpy.array([[0, 1, 2, 3, 4, 5]]))])
    m.add_cell_data("material", numpy.ones(2, dtype=int))
    m.add_cell_data("u", numpy.array([1.5, 2.5]))
    m.field_data["dfalt"] = numpy.array([1, 3])
    return m


def hex_mesh():
    return toughio.meshmaker.structured_grid([1.0, 2.0], [1.0], [1.0])


def outs():
    Output = toughio.Output
    return [Output("element", "csv", float(t), numpy.array(["AAA00", "AAA01"]), {"X": numpy.array([0.0, 1.0]), "Y": numpy.array([0.0, 2.0]), "P": numpy.array([t, 2.0])}) for t in (1, 2)]


REG = {"input": lambda: toughio.register_input, "output": lambda: toughio.register_output, "mesh": lambda: toughio.register_mesh}
READ = {"input": lambda: toughio.read_input, "output": lambda: toughio.read_output, "mesh": lambda: toughio.read_mesh}
WRITE = {"input": lambda: toughio.write_input, "output": lambda: toughio.write_output, "mesh": lambda: toughio.write_mesh}
TOP = {k: v for k, v in (("tough", 1), ("csv", 1))}


class World:
    """One process's registries, with handlers that only note that they were called."""

    def __init__(self, kind, rng):
        self.kind, self.rng, self.log = kind, rng, []
        self.events = [dict(ev="start", kind=kind)]
        self.keys = []

    def reader(self, i):
        def f(filename, *args, **kw):
            self.log.append((i, filename, args, kw))
            if self.kind == "mesh":
                m = a_mesh()
                m.cell_data = {k: [numpy.array([1]), numpy.array([2])] for k in self.keys}
                self.result = m
            else:
                self.result = {"me": i}
            return self.result
        return f

    def writer(self, i):
        def f(filename, *args, **kw):
            self.log.append((i, filename, args, kw))
        return f

    def register(self, r, material=""):
        args = (r["name"], self.rng.choice([list, tuple])(r["exts"]), self.reader(r["rd"]) if r["rd"] else None)
        kw = {"writer": self.writer(r["wr"])} if r["wr"] else {}
        if material:
            kw["material"] = material
        _, err = guarded(lambda: REG[self.kind]()(*args, **kw))
        self.events.append(dict(ev="reg", name=r["name"], exts=list(r["exts"]), rd=r["rd"], wr=r["wr"], material=material, err=err))

    def call(self, op, path, fmt, own_kw, content="none"):
        rng, kind = self.rng, self.kind
        e = dict(ev="call", kind=kind, op=op, path=path, fmt=fmt, lines=FILES[content] + [""], keys=[], got=[], form="")
        shutil.rmtree("w", ignore_errors=True)
        os.makedirs("w/d.x")
        full = os.path.join("w", path)
        if op == "read":
            with open(full, "w") as f:
                f.write("\n".join(FILES[content]) + "\n")
        before = snap("w")
        self.log, self.result = [], None
        kw = {"alpha": 3} if own_kw else {}
        akw = dict(kw)
        if fmt and not (kind == "output" and op == "read"):
            akw["file_format"] = fmt
        self.keys = e["keys"] = rng.choice([["u"], ["k1", "u"], ["gmsh:physical", "t"], ["u"], ["material"], ["flac3d:group"], ["k2"]])
        what = None
        if op == "read":
            r, e["err"] = guarded(lambda: READ[kind]()(full, **akw))
        else:
            what = {"input": lambda: dict(PARAMS), "output": outs, "mesh": hex_mesh}[kind]()
            was = repr(what.__dict__) if kind == "mesh" else repr(what)
            r, e["err"] = guarded(lambda: (what.write if kind == "mesh" and rng.random() < 0.5 else lambda f, **k: WRITE[kind]()(f, what, **k))(full, **akw))
        e["calls"] = [x[0] for x in self.log]
        ok = len(self.log) == 1 and self.log[0][1] == full and all(self.log[0][3].get(k) == v for k, v in kw.items())
        if ok and op == "read":
            ok = r is self.result or kind == "mesh" and r is not None
        if ok and op == "write" and self.log:
            a = self.log[0][2]
            if kind == "mesh":
                ok = len(a) == 1 and a[0].n_cells == what.n_cells and repr(what.__dict__) == was
                e["form"] = "lists" if len(a) == 1 and isinstance(a[0].cell_data["material"], list) else "flat"
            else:
                ok = len(a) == 1 and repr(a[0]) == was
        e["passed"] = "1" if ok else "0"
        if kind == "mesh" and op == "read" and self.log and r is not None and not e["err"]:
            e["got"] = list(r.cell_data)
            form = {"lists" if isinstance(v, list) else "flat" if list(v) == [1, 2] else "?" for v in r.cell_data.values()}
            e["form"] = form.pop() if len(form) == 1 else "mixed"
        now = snap("w")
        e["files"] = sorted(k for k in set(now) | set(before) if now.get(k) != before.get(k))
        self.events.append(e)


def snap(d):
    r = {}
    for a, _, fs in os.walk(d):
        for n in fs:
            with open(os.path.join(a, n), "rb") as f:
                r[os.path.join(a, n)] = f.read()
    return r


PATHS = ["f", "f.x", "F.X", "d.x/f", ".x", "..X", "f.json", "f.JSON", "f.x.json", "f.Json.x", "f.csv", "f.CSV", "f.tec", "f.TEC", "f.dat", "f.x.", "f.q", "f.Pickle", "f.F3Grid", "f.vtk", "f.VTU", "a b.x", "f.xyz"]
CONTENT = ["csv", "petrasim", "tecplot", "save", "tough", "none"]


def history(a):
    kind, hist, seed, calls, dirname = a
    os.makedirs(dirname)
    os.chdir(dirname)
    rng = random.Random(seed)
    w = World(kind, rng)
    names = [r["name"] for r in hist]
    pos = 0
    for i in range(len(hist) + calls):
        if pos < len(hist) and (rng.random() < 0.4 or i - pos >= calls):
            w.register(hist[pos], hist[pos].get("material", ""))
            pos += 1
            continue
        op = rng.choice(["read", "write"])
        known = names[:pos]
        fmt = rng.choice(known + [""] * (len(known) + 2) + ["nope", rng.choice(names) if names else "x", "a"])
        path = rng.choice(PATHS + [("f" + x.swapcase()) for r in hist for x in r["exts"]])
        mine = any(r["name"] == fmt and r["rd" if op == "read" else "wr"] for r in hist[:pos])
        w.call(op, path, fmt, mine and rng.random() < 0.5, rng.choice(CONTENT))
    return w.events


def magic(path):
    with open(path, "rb") as f:
        b = f.read(400)
    t = b.decode("latin1")
    s = t.lstrip()
    if s.startswith("{"):
        return "json"
    if s.startswith('"') and "ELEM" in t.split("\n")[0]:
        return "csv"
    if s.startswith("TIME"):
        return "petrasim"
    if s.startswith("ELEME"):
        return "tough"
    if s.startswith("# vtk"):
        return "vtk"
    if "<VTKFile" in t:
        return "vtu"
    if "<Xdmf" in t:
        return "xdmf"
    if b[:1] == b"\x80":
        return "pickle"
    if "FLAC3D" in t or b[:4] == b"\xdc\x07\x00\x00" or b[:8] == b"\x04\x0e\xa5\x00":
        return "flac3d"
    if "VARIABLES" in t:
        return "tecplot"
    if "ROCKS" in t:
        return "tough"
    if s.startswith("#") or s[:1].isdigit():
        return "avsucd"
    return "?"


def builtins(rng, n):
    evs = []
    names = {"input": ["f", "f.json", "f.JSON", "F.Json", "f.dat", "MESHY", "a.json/f", ".json", "f.json.in"],
             "output": ["f.csv", "F.CSV", "f.tec", "f.TEC", "f", "f.dat", "f.json", "a.csv/f"],
             "mesh": ["f.f3grid", "F.F3GRID", "f.dat", "f.TEC", "f.pickle", "f.PKL", "f.vtk", "f.vtu", "f.xdmf", "f", "f.qqq", "MESH", "f.vtk.pkl", "a.vtk/f"]}
    fmts = {"input": ["", "", "tough", "json"], "output": ["", "", "csv", "tecplot", "petrasim", "save", "tough"],
            "mesh": ["", "", "", "tough", "pickle", "flac3d", "tecplot", "avsucd", "vtk", "vtu"]}
    bad = {"input": ["nope", "JSON", "TOUGH"], "output": ["nope", "CSV"], "mesh": ["nope", "FLAC3D", "Tough"]}
    for _ in range(n):
        kind = rng.choice(list(names))
        path, fmt = rng.choice(names[kind]), rng.choice(fmts[kind] + bad[kind][:1] + ([rng.choice(bad[kind])] if rng.random() < 0.3 else []))
        shutil.rmtree("w", ignore_errors=True)
        for d in ("a.json", "a.csv", "a.vtk"):
            os.makedirs("w/" + d)
        full = os.path.join("w", path)
        what = {"input": lambda: dict(PARAMS), "output": outs, "mesh": hex_mesh}[kind]()
        kw = {"file_format": fmt} if fmt else {}
        if rng.random() < 0.3:
            kw = {"file_format": fmt or None}
        e = dict(ev="builtin", kind=kind, op="write", path=path, fmt=fmt, kindof="?", reread="0")
        _, e["err"] = guarded(lambda: (what.write if kind == "mesh" and rng.random() < 0.5 else lambda f, **k: WRITE[kind]()(f, what, **k))(full, **kw))
        e["files"] = sorted(snap("w"))
        if not e["err"] and os.path.exists(full):
            e["kindof"] = magic(full)
            r, err = guarded(lambda: READ[kind]()(full, **({} if kind == "output" else kw)))
            if kind == "mesh":
                good = r is not None and (r.n_cells == 2 if e["kindof"] != "tough" else len(r["elements"]) == 2)
            elif kind == "input":
                good = r is not None and "dfalt" in r["rocks"]
            else:
                good = r is not None and len(r) == 2
            e["reread"] = "1" if good and not err else "0"
        evs.append(e)
    return evs


def badtypes():
    evs = []
    m, p, o = hex_mesh(), dict(PARAMS), outs()
    for name in (None, 3, b"f.json", pathlib.Path("f.json"), ["f"]):
        for fn in (lambda: toughio.read_input(name), lambda: toughio.write_input(name, p), lambda: toughio.read_output(name), lambda: toughio.write_output(name, o),
                   lambda: toughio.read_mesh(name), lambda: toughio.write_mesh(name, m), lambda: m.write(name), lambda: toughio.read_history(name), lambda: toughio.read_time_series(name)):
            shutil.rmtree("w", ignore_errors=True)
            os.makedirs("w")
            os.chdir("w")
            _, err = guarded(fn)
            os.chdir("..")
            evs.append(dict(ev="badtype", err=err, calls=[], files=sorted(snap("w")), name=str(type(name))))
    for fn in (lambda: toughio.write_input("w/f", [1]), lambda: toughio.write_input("w/f", None), lambda: toughio.write_output("w/f.csv", 3), lambda: toughio.write_output("w/f.csv", [1, 2]),
               lambda: toughio.write_output("w/f.csv", {"a": 1}), lambda: toughio.read_output("w/f.csv", labels_order="abc"),
               lambda: toughio.read_input("w/g", file_format="nope"), lambda: toughio.write_input("w/f", p, file_format="nope")):
        shutil.rmtree("w", ignore_errors=True)
        os.makedirs("w")
        _, err = guarded(fn)
        evs.append(dict(ev="badtype", err=err, calls=[], files=sorted(snap("w")), name="value"))
    return evs


def run(c):
    rng = c.rng
    r = c.mc("RegistryMC", MC % (2, 1), name="registrations")
    if c.tier == "thorough":
        c.mc("RegistryMC", MC % (3, 0), name="longer histories", workers=8, timeout=800)
    H = r.tagged("REG")
    jobs = []
    for x in rng.sample(H, min(len(H), c.quick(160, 1200))):
        jobs.append((x["kind"], [dict(h, exts=list(h["exts"])) for h in x["hist"]], rng.randrange(10**9), rng.randint(3, 8), os.path.abspath("h%d" % len(jobs))))
    ALL = {"input": ["tough", "json", "a", "B", "x y"], "output": ["csv", "tecplot", "petrasim", "save", "tough", "a"], "mesh": ["tough", "pickle", "tecplot", "flac3d", "avsucd", "vtk", "a", "b"]}
    for _ in range(c.quick(120, 1200)):
        kind = rng.choice(["input", "output", "mesh"])
        hist = []
        for i in range(rng.randint(1, 6)):
            known = ALL[kind] + [h["name"] for h in hist]
            ro = rng.random() < 0.12
            name = rng.choice(known)
            if ro:
                name = "only%d" % i
            h = dict(name=name, exts=rng.sample([".x", ".X", ".q"] + ([] if ro else [".json", ".csv", ".TEC", ".dat", ".xyz", ".pickle", ".vtu"]), rng.choice([0, 0, 1, 2, 3])), rd="r%d" % (i + 1), wr="" if ro else "w%d" % (i + 1))
            if kind == "mesh" and rng.random() < 0.4:
                h["material"] = rng.choice(["k1", "k2"])
            if name in known and rng.random() < 0.3:  # only one of the two changes
                h[rng.choice(["rd", "wr", "wr"])] = ""
            hist.append(h)
        jobs.append((kind, hist, rng.randrange(10**9), rng.randint(4, 14), os.path.abspath("h%d" % len(jobs))))
    with multiprocessing.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
        hs = pool.map(history, jobs, chunksize=1)
    for h in hs:
        for e in h:
            c.count(e["ev"] if e["ev"] != "call" else "%s_%s%s" % (e["op"], e["kind"], "_refused" if e["err"] else ""))
    b = builtins(rng, c.quick(200, 1500))
    for e in b:
        c.count("builtin_" + e["kind"])
    hs += [[e] for e in b] + [[e] for e in badtypes()]
    c.sample(lambda: {"history": hs[0]})
    report(c, c.trace("RegistryTrace", None, groups=hs), ("err", "ev", "kind", "op", "path", "fmt", "calls", "files", "passed", "kindof", "keys", "got", "form"))
    c.assumptions += ["a mesh format that can only be read has no extension of meshio"]
