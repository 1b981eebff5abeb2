"""D06: histories of write_input and read_input in one process."""
import copy
import hashlib
import json
import os
import pickle

import numpy
from core import guarded
from decks import flatten, report

CONSTS = 'CONSTANTS Valid = {%s} Invalid = {%s} Files = {"f1", "f2"}\n'


def strict(x):
    """Text of a value, types and identities of containers included."""
    if isinstance(x, dict):
        return "{" + ",".join(repr(k) + ":" + strict(v) for k, v in x.items()) + "}"
    if isinstance(x, (list, tuple)):
        return type(x).__name__ + "[" + ",".join(strict(v) for v in x) + "]"
    if isinstance(x, numpy.ndarray):
        return "nd%s%s%s" % (x.dtype, x.shape, x.tobytes().hex() if x.dtype != object else strict(list(x)))
    return type(x).__name__ + repr(x)


def alphabet(rng):
    """Parameter sets that could interfere through shared state: (params, format, block)."""
    from deckgen import Gen
    el = {"AAA10": {"material": "A", "volume": 1.0, "center": [0.0, 1.0, 2.0]}, "AAA11": {"nseq": 2}}
    v = {
        "v1": ({"title": "one", "rocks": {"A": {"density": 1.0, "initial_condition": [1.0, 2.0]}, "B": {}},
                "default": {"porosity": 0.5, "relative_permeability": {"id": 1, "parameters": [1.0]},
                            "initial_condition": [1.0, 2.0, 3.0, 4.0, 5.0], "permeability_model": {"id": 3, "parameters": [1.0]}},
                "flac": {"creep": True, "version": 7}, "selections": {"integers": {2: 3}, "floats": [[1.0], [2.0]]},
                "eos": "eco2n", "diffusion": [[1e-6, 1e-7], [1e-6, 1e-7], [1e-5, 0.0]], "start": False, "nover": True,
                "extra_options": {1: 2, 24: 4}, "more_options": {2: 1}, "solver": {"method": 5, "eps": 1e-9},
                "options": {"t_steps": [1.0, 2.0], "n_cycle": 12}, "output": {"format": "csv", "variables": {"x": [1, 2]}},
                "generators": {"AAA10": {"type": ["COM1", "COM2"], "rates": [1.0, 2.0]}}, "elements": el}, "tough", "all"),
        "v2": ({"rocks": {"A": {}}, "flac": {}, "selections": {"integers": {3: 1}}, "solver": {"method": 2},
                "default": {}, "options": {}, "output": {"variables": {"y": None}}, "n_component": 2, "n_phase": 2,
                "initial_conditions": {"AAA10": {"values": [1.0]}}, "generators": {"AAA11": {"type": "MASS"}}}, "tough", "all"),
        "v3": ({"title": ["l1", "l2"], "elements": el, "coordinates": False, "initial_conditions": {"AAA10": {"userx": [1.0], "values": [1.0, 2.0]}}},
               "tough", "mesh"),
        "v4": ({"title": "js", "extra_options": {3: numpy.int64(4)}, "times": numpy.array([1.0, 2.0]), "rocks": {"A": {"density": numpy.float64(2.0)}},
                "selections": {"floats": (1.0, 2.0)}}, "json", "all"),
        "v5": (Gen(rng, "numpy").params("all", 5, True), "tough", "all"),
    }
    bad = copy.deepcopy(v["v1"][0])
    bad["generators"]["AAA11"] = {"type": "MASS", "times": [1.0, 2.0], "rates": [1.0, 2.0, 3.0]}
    n = {
        "n1": ({"title": "x", "eos": "nope"}, "tough", "all"),
        "n2": (bad, "tough", "all"),
        "n3": ({"rocks": {"A": {"density": "heavy"}}}, "tough", "all"),
        "n4": ({"title": "x", "rocks": {"A": {"density": {1.0}}}}, "json", "all"),
        "n5": ({"elements": {"AAA10": {"volume": 1.0}, "AAA11": {"center": 3.0}}}, "tough", "mesh"),
        "n6": ({"title": "x"}, "tough", "everything"),
    }
    return v, n


def put(path, spec):
    import toughio
    p, fmt, blk = spec
    if fmt == "json":
        toughio.write_input(path, p, file_format="json")
    elif blk == "all":
        toughio.write_input(path, p, file_format="tough")
    else:
        toughio.write_input(path, p, file_format="tough", block=blk)


def dig(path):
    if not os.path.exists(path):
        return ""
    with open(path, "rb") as f:
        return hashlib.sha1(f.read()).hexdigest()


def in_fork(fn):
    """Result of fn in a child process that has not made any call yet."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            out = json.dumps(fn())
        except BaseException as e:
            out = json.dumps("!" + type(e).__name__ + str(e))
        os.write(w, out.encode())
        os._exit(0)
    os.close(w)
    s = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        s += b
    os.close(r)
    os.waitpid(pid, 0)
    return json.loads(s)


def run(c):
    import toughio
    rng = c.rng
    V, N = alphabet(rng)
    names = lambda d: ", ".join('"%s"' % k for k in sorted(d))
    consts = CONSTS % (names(V), names(N))
    depth = c.quick(2, 3)
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxLen=%d Emit=%d\n" + consts + "INVARIANT LastValidWins\nPROPERTY OnlyWritesChange\n"
    r = c.mc("SessionMC", cfg % (depth, 1), workers=4, name="histories of %d calls" % depth)
    hists = r.tagged("HIST")
    c.count("spec_generated_histories", len(hists))
    # long random histories, in the same alphabet
    for _ in range(c.quick(60, 400)):
        h, have = [], {}
        for _ in range(rng.randint(4, 12)):
            f = rng.choice(["f1", "f2"])
            if f in have and rng.random() < 0.35:
                h.append({"op": "read", "f": f, "p": have[f]})
            else:
                p = rng.choice(sorted(V) + sorted(N))
                h.append({"op": "write", "f": f, "p": p})
                if p in V:
                    have[f] = p
        hists.append(h)
    rng.shuffle(hists)

    def one(name):
        def f():
            put("fresh", V[name])
            d = dig("fresh")
            return d

        def g():
            put("fresh", V[name])
            return 0

        def h():
            q = toughio.read_input("fresh", file_format=V[name][1])
            return hashlib.sha1(strict(q).encode()).hexdigest()
        d = in_fork(f)
        q = in_fork(h)
        return d, q
    fresh, fread = {}, {}
    for k in V:
        fresh[k], fread[k] = one(k)
    for n, d in (("fresh.json", fresh), ("fread.json", fread)):
        with open(n, "w") as f:
            f.write(json.dumps(d) + "\n")
    groups = []
    for h in hists:
        for f in ("f1", "f2"):
            if os.path.exists(f):
                os.remove(os.path.abspath(f))
        evs = [{"op": "begin", "f": "f1", "p": "v1", "err": "", "arg": "1", "dig": "", "disk": {"f1": "", "f2": ""}, "_h": h}]
        # argument dictionaries live through the whole history
        args = {k: s for k, s in list(V.items()) + list(N.items())}
        for s in h:
            if s["op"] == "write":
                spec = args[s["p"]]
                before = strict(spec[0])
                _, err = guarded(put, s["f"], spec)
                arg = "1" if strict(spec[0]) == before else "0"
                dg = ""
            else:
                q, err = guarded(lambda: toughio.read_input(s["f"], file_format=V[s["p"]][1]))
                dg = hashlib.sha1(strict(q).encode()).hexdigest() if not err else ""
                arg = "1"
                # nothing the caller does with a result reaches later calls
                if not err:
                    scribble(q)
            evs.append({"op": s["op"], "f": s["f"], "p": s["p"], "err": err, "arg": arg, "dig": dg,
                        "disk": {f: dig(f) for f in ("f1", "f2")}, "_h": h})
            c.count(s["op"] + ("_rejected" if err else ""))
        groups.append(evs)
    c.sample(lambda: {"history": [(s["op"], s["f"], s["p"]) for s in hists[0]]})
    bad = c.trace("SessionTrace", None, groups=groups, consts=consts,
                  env={"FRESH": os.path.abspath("fresh.json"), "FREAD": os.path.abspath("fread.json")})
    for e, ds in bad:
        for d in ds:
            for cl in d["clauses"]:
                c.fail(cl, {"event": {k: v for k, v in e.items() if k[0] != "_"}, "history": e["_h"]}, e)


def scribble(q):
    """Overwrite everything inside a result."""
    if isinstance(q, dict):
        for k in list(q):
            scribble(q[k])
            q[k] = "scribbled"
    elif isinstance(q, list):
        for i, x in enumerate(q):
            scribble(x)
            q[i] = -1
