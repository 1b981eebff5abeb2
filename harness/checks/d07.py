"""D07: what write_input refuses, and what it ignores."""
import copy

import numpy
from core import guarded, run_tlc
from decks import report, lines_of

SAMPLE = {"int": 1, "npint": numpy.int64(2), "float": 1.5, "npfloat": numpy.float64(2.5), "str": "xyz", "bool": True,
          "dict": {"zz": 1}, "list": [1.0, 2.0, 3.0], "tuple": (1.0, 2.0, 3.0), "ndarray": numpy.array([1.0, 2.0, 3.0]),
          "object": object}
# the same kinds, empty or zero
FALSY = {"int": 0, "npint": numpy.int64(0), "float": 0.0, "npfloat": numpy.float64(0.0), "str": "", "bool": False,
         "dict": {}, "list": [], "tuple": (), "ndarray": numpy.array([])}


def base():
    m = lambda: {"id": 1, "parameters": [1.0, 2.0]}
    rk = lambda: {"density": 1.0, "permeability": 1e-12, "relative_permeability": m(), "capillarity": m(),
                  "permeability_model": m(), "equivalent_pore_pressure": m(), "initial_condition": [1.0, 2.0]}
    return {
        "title": "base", "eos": "eos3", "rocks": {"R1": rk(), "R2": rk()}, "default": rk(), "flac": {"creep": True, "version": 7},
        "options": {"t_ini": 1.0}, "extra_options": {1: 1}, "more_options": {1: 1}, "solver": {"method": 3},
        "selections": {"integers": {2: 1}, "floats": [1.0]},
        "generators": {"AAA10": {"type": "MASS", "rates": 1.0}, "AAA11": {"type": "HEAT"}},
        "output": {"format": "csv", "variables": {"x": 1}}, "times": [1.0, 2.0],
        "elements": {"AAA10": {"material": "R1", "volume": 1.0, "center": [0.0, 0.0, 0.0]}, "AAA11": {}},
        "connections": {"AAA10AAA11": {"nodal_distances": [1.0, 1.0]}},
        "initial_conditions": {"AAA10": {"values": [1.0, 2.0]}, "AAA11": {"values": [1.0]}},
    }


def sparse():
    """The same deck, where every first entry gives next to nothing."""
    p = base()
    p["rocks"] = {"R1": {"density": 1.0}, "R2": {"density": 2.0}, "R3": p["rocks"]["R2"], "R4": {}}
    p["generators"] = {"AAA10": {"type": "MASS"}, "AAA11": {"type": "HEAT"}, "AAA12": p["generators"]["AAA10"]}
    p["elements"] = {"AAA10": {}, "AAA11": {}, "AAA12": p["elements"]["AAA10"], "AAA13": {}}
    p["elements"]["AAA12"]["material"] = "R3"
    p["connections"] = {"AAA10AAA11": {}, "AAA11AAA12": p["connections"]["AAA10AAA11"], "AAA12AAA13": {}}
    p["initial_conditions"] = {"AAA10": {"values": [1.0, 2.0]}, "AAA11": {}, "AAA12": p["initial_conditions"]["AAA10"]}
    return p


def later(holder):
    """Where the holder's things are in the sparse deck."""
    new = {"rocks": "R3", "generators": "AAA12", "elements": "AAA12", "connections": "AAA11AAA12", "initial_conditions": "AAA12"}
    return [holder[0], new[holder[0]]] + holder[2:] if holder and holder[0] in new else holder


HOLD = {
    "top": [[]], "rocks": [["rocks", "R1"], ["rocks", "R2"]], "default": [["default"]],
    "rocks_rp": [["rocks", "R2", "relative_permeability"]], "rocks_cp": [["rocks", "R1", "capillarity"]],
    "rocks_pm": [["rocks", "R2", "permeability_model"]], "rocks_ep": [["rocks", "R1", "equivalent_pore_pressure"]],
    "default_rp": [["default", "relative_permeability"]], "default_cp": [["default", "capillarity"]],
    "default_pm": [["default", "permeability_model"]], "default_ep": [["default", "equivalent_pore_pressure"]],
    "flac": [["flac"]], "options": [["options"]], "extra_options": [["extra_options"]], "more_options": [["more_options"]],
    "selections": [["selections"]], "solver": [["solver"]], "generators": [["generators", "AAA10"], ["generators", "AAA11"]],
    "output": [["output"]], "elements": [["elements", "AAA10"], ["elements", "AAA11"]],
    "connections": [["connections", "AAA10AAA11"]], "initial_conditions": [["initial_conditions", "AAA10"], ["initial_conditions", "AAA11"]],
}


def at(p, path):
    for k in path:
        p = p[k]
    return p


def run(c):
    import toughio
    r = c.mc("ValidTables", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Sane\n", workers=1)
    table = r.tagged("TABLE")[0]
    accept = r.tagged("ACCEPT")[0]
    evs = []
    OLD = "previous content\n"

    def attempt(p, **kw):
        with open("f", "w") as f:
            f.write(OLD)
        _, err = guarded(lambda: toughio.write_input("f", p, **kw))
        with open("f") as f:
            kept = f.read() == OLD
        return err.split(":")[0], "1" if kept else "0", err

    assert attempt(sparse())[0] == "", attempt(sparse())
    assert attempt(base())[0] == "", attempt(base())
    ref = lines_of("f")

    # every parameter, every kind of value, in the full deck and alone
    for path, keys in table.items():
        for holder in HOLD[path]:
            for key, typ in keys.items():
                k = int(key) if path in ("extra_options", "more_options") else key
                for kind, val in SAMPLE.items():
                    p = base()
                    if path == "generators" and typ in ("nums",):
                        at(p, holder).pop("rates", None)
                    at(p, holder)[k] = copy.deepcopy(val)
                    err, kept, full = attempt(p)
                    p2 = sparse()
                    if path == "generators" and typ in ("nums",):
                        at(p2, later(holder)).pop("rates", None)
                    at(p2, later(holder))[k] = copy.deepcopy(val)
                    err2, kept2, full2 = attempt(p2)
                    ok = "1" if typ in ("int", "scalar", "strint") and kind in ("int", "npint", "float", "npfloat", "str") else "0"
                    evs.append(dict(ev="kind", path=path, key=key, kind=kind, err=err, kept=kept, ok=ok, _full=full, _holder=holder))
                    evs.append(dict(ev="kind", path=path, key=key, kind=kind, err=err2, kept=kept2, ok=ok, _full=full2, _holder=later(holder)))
                    if path == "top" and kind not in accept[typ]:
                        err, kept, full = attempt({k: copy.deepcopy(val)})
                        evs.append(dict(ev="kind", path=path, key=key, kind=kind, err=err, kept=kept, ok="0", _full=full, _holder="alone"))
                for kind, val in FALSY.items():
                    if kind in accept[typ]:
                        continue
                    # after a key that is not known
                    p = base()
                    d = at(p, holder)
                    d.pop(k, None)
                    old = dict(d)
                    d.clear()
                    d[99 if path in ("extra_options", "more_options") else "zzz"] = 1
                    d[k] = copy.deepcopy(val)
                    d.update(old)
                    err, kept, full = attempt(p)
                    evs.append(dict(ev="kind", path=path, key=key, kind=kind, err=err, kept=kept, ok="0", _full=full, _holder=[holder, "empty"]))
                c.count("parameters")

    # inconsistent shapes and names
    def shape(what, edit, **kw):
        p = base()
        edit(p)
        err, kept, full = attempt(p, **kw)
        evs.append(dict(ev="shape", what=what, err=err, kept=kept, _full=full))

    for n in (1, 2, 4, 5):
        for typ in (list, tuple, numpy.array):
            shape("permeability of %d" % n, lambda p: p["rocks"]["R2"].update(permeability=typ([1.0] * n)))
    shape("permeability of default", lambda p: (p["default"].update(permeability=[1.0, 2.0]), p["rocks"]["R1"].pop("permeability")))
    shape("permeability 2-D", lambda p: p["rocks"]["R2"].update(permeability=numpy.ones((2, 2))))
    for n in (9, 12):
        shape("selections of %d" % n, lambda p: p["selections"].update(floats=[1.0] * n))
        shape("selections row of %d" % n, lambda p: p["selections"].update(floats=[[1.0], [1.0] * n]))
    for nm in ("eos6", "EOS3", "eos", "tmvoc"):
        shape("eos " + nm, lambda p: p.update(eos=nm))
    for b in ("eleme", "ALL", "", "rocks"):
        shape("block " + b, lambda p: None, block=b)
    g = lambda **kw: (lambda p: p["generators"].update(AAA10=dict({"type": "MASS"}, **kw)))
    A = numpy.array
    for lt, lr in ((2, 3), (3, 2), (5, 4), (4, 5), (8, 1)):
        shape("rates of %d for %d times" % (lr, lt), g(times=[1.0] * lt, rates=[1.0] * lr))
        shape("rates array of %d for %d times" % (lr, lt), g(times=A([1.0] * lt), rates=A([1.0] * lr)))
        shape("enthalpy of %d for %d times" % (lr, lt), g(times=[1.0] * lt, rates=[1.0] * lt, specific_enthalpy=[1.0] * lr))
    shape("scalar rate for times", g(times=[1.0, 2.0], rates=1.0))
    shape("scalar enthalpy for times", g(times=[1.0, 2.0], rates=[1.0, 2.0], specific_enthalpy=3.0))
    shape("table of one", g(times=[1.0], rates=[1.0]))
    shape("rates without times", g(rates=[1.0, 2.0]))
    shape("enthalpy without times", g(specific_enthalpy=[1.0, 2.0]))
    shape("2-D rates", g(times=[1.0, 2.0], rates=[[1.0, 2.0], [1.0, 2.0]]))
    for key in ("name", "nseq", "nadd", "nads", "rates", "specific_enthalpy", "layer_thickness", "times"):
        for v in ([["a", "b"], ["c", "d"]] if key == "name" else [[1, 2], [3, 4]], [["a"]] if key == "name" else [[1]]):
            shape("%s %s of one generator" % (v, key), g(**{key: v}))
            shape("array %s %s of one generator" % (v, key), g(**{key: A(v)}))
    m = lambda **kw: (lambda p: p["generators"].update(AAA11=dict({"type": ["MASS", "COM1"]}, **kw)))
    for key in ("name", "nseq", "nadd", "nads", "rates", "specific_enthalpy", "layer_thickness", "times"):
        v = ["a", "b", "c"] if key == "name" else [1, 2, 3]
        shape("3 %s for 2 generators" % key, m(**{key: v}))
        shape("1 %s for 2 generators" % key, m(**{key: v[:1]}))
        shape("scalar %s for 2 generators" % key, m(**{key: v[0]}))

    # unknown keys, everywhere, whatever their value
    for path in list(table) + ["integers"]:
        for holder in HOLD.get(path, [["selections", "integers"]]):
            for name in ("zzz", "density2", "Porosity", 0, -1):
                for val in (5, "txt", [1, 2], {"a": 1}, None, object):
                    p = base()
                    k = 99 if path in ("extra_options", "more_options", "integers") and name == "zzz" else name
                    at(p, holder)[k] = val
                    err, kept, full = attempt(p)
                    same = "1" if not err and lines_of("f") == ref else "0"
                    evs.append(dict(ev="unknown", path=path, err=err, same=same, _full=full, _holder=holder, _k=k, _v=repr(val)))
    for e in evs:
        c.count(e["ev"])
    c.sample(lambda: {k: v for k, v in evs[0].items()})
    for e, ds in c.trace("ValidTrace", evs):
        for d in ds:
            for cl in d["clauses"]:
                c.fail(cl, e, e)
    c.assumptions += ["a boolean given for a number is left open"]
