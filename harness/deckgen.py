"""Random TOUGH decks: parameter dictionaries, their encodings, restyled text."""
import numpy
from core import enc_num

SCALARS = ["density", "porosity", "conductivity", "specific_heat"]
EXTRA = ["compressibility", "expansivity", "conductivity_dry", "tortuosity", "klinkenberg_parameter",
         "distribution_coefficient_3", "distribution_coefficient_4"]
GENKEYS = ["name", "nseq", "nadd", "nads", "type", "times", "rates", "specific_enthalpy", "layer_thickness"]
OPT = ["n_iteration", "verbosity", "n_cycle", "n_second", "n_cycle_print", "temperature_dependence_gas",
       "effective_strength_vapor", "t_ini", "t_max", "t_step_max", "gravity", "t_reduce_factor",
       "mesh_scale_factor", "eps1", "eps2", "w_upstream", "w_newton", "derivative_factor"]
INTOPT = {"n_iteration": 2, "verbosity": 2, "n_cycle": 4, "n_second": 4, "n_cycle_print": 4}
ELS = ["nseq", "nadd", "material", "volume", "heat_exchange_area", "permeability_modifier"]
CNS = ["nseq", "permeability_direction", "interface_area", "gravity_cosine_angle", "radiant_emittance_factor"]
EOS = ["eos1", "eos2", "eos3", "eos4", "eos5", "eos7", "eos8", "eos9", "eoswasg", "eco2n", "eco2n_v2", "eco2m"]
EOS_NPH = {"eos1": 2, "eos2": 2, "eos3": 2, "eos4": 2, "eos5": 2, "eos7": 2, "eos8": 3, "eos9": 1,
           "eoswasg": 3, "eco2n": 3, "eco2n_v2": 3, "eco2m": 4}


# -- encodings (shapes described in spec/Deck.tla) ---------------------------
def isl(x):
    return isinstance(x, (list, tuple, numpy.ndarray))


def V(x):
    if x is None:
        return []
    return ["L"] + [enc_num(v) for v in x] if isl(x) else ["S", enc_num(x)]


def L(x):
    return [] if x is None else [enc_num(v) for v in x]


def trim(x):
    x = list(x)
    while x and x[-1] == "~":
        x.pop()
    return x


def model(m):
    return {"id": "~", "par": []} if not m else {"id": enc_num(m.get("id")), "par": L(m.get("parameters"))}


def rock(r):
    return {"s": {k: enc_num(r[k]) for k in SCALARS + EXTRA if k in r}, "perm": V(r.get("permeability")),
            "ic": L(r.get("initial_condition")), "rp": model(r.get("relative_permeability")),
            "cp": model(r.get("capillarity")), "pm": model(r.get("permeability_model")),
            "ep": model(r.get("equivalent_pore_pressure"))}


def flag(x):
    return "bT" if x else "bF"


def gen_p(label, g):
    t = g.get("type")
    n = len(t) if isl(t) else 1
    f = {}
    for k in GENKEYS:
        if k not in g or (g[k] is None and k != "type"):
            continue
        v = g[k]
        f[k] = [V1(x) for x in v] if isl(t) else [V1(v)]
        assert len(f[k]) == n and isl(v) == isl(t) or k == "type" or not isl(t), (label, g)
    return {"label": label, "f": f}


def V1(x):
    return ["S", "~"] if x is None else V(x)


def outvars(d):
    out = []
    for k, v in (d or {}).items():
        if not isl(v):
            rows = [[v]]
        elif len(v) == 0 or not isl(v[0]):
            rows = [v]
        else:
            rows = v
        out.append({"name": k.lower(), "rows": [trim(L(r)) for r in rows]})
    return out


def nested(x):
    return [L(r) for r in x] if x is not None else []


def sel_floats(s):
    f = (s or {}).get("floats")
    if f is None or len(f) == 0:
        return []
    return [L(r) for r in f] if isl(f[0]) else [L(f)]


def enc_p(p, block="all"):
    """Encode the argument of write_input."""
    title = p.get("title", "")
    o = dict(p.get("options") or {})
    fl = p.get("flac")
    sel = p.get("selections") or {}
    el, cn, ic = p.get("elements") or {}, p.get("connections") or {}, p.get("initial_conditions") or {}
    out = p.get("output") or {}
    if not any(out.values()):
        out = {}
    return {
        "block": block,
        "title": [title] if isinstance(title, str) else [str(t) for t in title],
        "eos": "s" + p["eos"] if p.get("eos") else "~",
        "s": {"n_component": enc_num(p.get("n_component")), "n_phase": enc_num(p.get("n_phase")),
              "n_component_mass": enc_num(p.get("n_component_mass")), "isothermal": flag(p.get("isothermal", False)),
              "start": flag(p.get("start", True)), "nover": flag(p.get("nover", False)),
              "coordinates": flag(p.get("coordinates", False))},
        "rorder": [str(x) for x in p["rocks_order"]] if p.get("rocks_order") is not None else [],
        "rkeys": list((p.get("rocks") or {}).keys()),
        "rocks": {k: rock(v) for k, v in (p.get("rocks") or {}).items()},
        "default": rock(p.get("default") or {}),
        "hasflac": "1" if fl is not None else "0",
        "flac": {"creep": enc_num((fl or {}).get("creep")), "porosity_model": enc_num((fl or {}).get("porosity_model")),
                 "version": enc_num((fl or {}).get("version"))},
        "solver": {k: enc_num(v) for k, v in (p.get("solver") or {}).items()},
        "opt": {k: enc_num(v) for k, v in o.items() if k != "t_steps"},
        "tsteps": V(o.get("t_steps")),
        "mop": {str(k): enc_num(v) for k, v in (p.get("extra_options") or {}).items()},
        "momop": {str(k): enc_num(v) for k, v in (p.get("more_options") or {}).items()},
        "hassel": "1" if sel else "0",
        "selint": {str(k): enc_num(v) for k, v in (sel.get("integers") or {}).items()},
        "selfl": sel_floats(sel),
        "times": V(p.get("times")),
        "foft": [str(x) for x in p["element_history"]] if p.get("element_history") is not None else [],
        "coft": [str(x) for x in p["connection_history"]] if p.get("connection_history") is not None else [],
        "goft": [str(x) for x in p["generator_history"]] if p.get("generator_history") is not None else [],
        "gener": [gen_p(k, v) for k, v in (p.get("generators") or {}).items()],
        "hasdiff": "1" if p.get("diffusion") is not None and len(p["diffusion"]) else "0",
        "diff": nested(p.get("diffusion")),
        "outfmt": "s" + out["format"].upper() if out.get("format") else "~",
        "outvars": outvars(out.get("variables")),
        "eorder": [str(x) for x in p["elements_order"]] if p.get("elements_order") is not None else [],
        "ekeys": list(el.keys()),
        "elements": {k: {"s": {a: enc_num(b) for a, b in v.items() if a in ELS},
                         "center": L(v.get("center"))} for k, v in el.items()},
        "corder": [str(x) for x in p["connections_order"]] if p.get("connections_order") is not None else [],
        "ckeys": list(cn.keys()),
        "conns": {k: {"s": {a: enc_num(b) for a, b in v.items() if a in CNS},
                      "nadd": L(v.get("nadd")), "dist": L(v.get("nodal_distances"))} for k, v in cn.items()},
        "iorder": [str(x) for x in p["initial_conditions_order"]] if p.get("initial_conditions_order") is not None else [],
        "ikeys": list(ic.keys()),
        "incons": {k: {"porosity": enc_num(v.get("porosity")), "userx": L(v.get("userx")),
                       "values": L(v.get("values"))} for k, v in ic.items()},
    }


def prune(d):
    return {k: v for k, v in d.items() if v != "~"}


def enc_q(q):
    """Encode the result of read_input."""
    e = enc_p(q)
    fl = q.get("flac")
    sel = q.get("selections")
    f = (sel or {}).get("floats")
    pad = lambda s, n: s if s else ["~"] * n

    def rk(r):
        for k in ("rp", "cp", "pm", "ep"):
            r[k]["par"] = trim(r[k]["par"])
        r["s"] = prune(r["s"])
        r["ic"] = trim(r["ic"])
        return r
    gens = []
    for k, g in (q.get("generators") or {}).items():
        comps = 1
        for kk in GENKEYS:
            # several generators of one element: type is then a list
            if isl(g.get("type")):
                comps = len(g["type"])
        ff = {}
        for kk in GENKEYS:
            if kk in g and g[kk] is not None:
                ff[kk] = [V1(x) for x in g[kk]] if isl(g.get("type")) else [V1(g[kk])]
        gens.append({"label": k, "f": ff})
    unknown = sorted(set(q) - {
        "title", "n_component", "n_phase", "n_component_mass", "isothermal", "start", "nover", "coordinates", "rocks",
        "rocks_order", "default", "flac", "solver", "options", "extra_options", "more_options", "selections", "times",
        "element_history", "connection_history", "generator_history", "generators", "diffusion", "output", "elements",
        "elements_order", "connections", "connections_order", "initial_conditions", "initial_conditions_order"})
    t = q.get("title")
    if unknown:
        e["foft"] = ["?unknown keys " + " ".join(map(str, unknown))]
    return {
        "title": e["title"] if "title" in q else [],
        "tform": "none" if "title" not in q else "str" if isinstance(t, str) else "list",
        "s": e["s"], "rorder": e["rorder"], "rocks": {k: rk(r) for k, r in e["rocks"].items()},
        "default": rk(e["default"]), "flac": prune(e["flac"]) if fl is not None else {},
        "solver": prune(e["solver"]), "opt": prune(e["opt"]), "tsteps": e["tsteps"],
        "mop": prune(e["mop"]), "momop": prune(e["momop"]),
        "selint": prune(e["selint"]), "selfl": [trim(r) for r in e["selfl"]],
        "selform": "none" if f is None else "2" if len(f) and isl(f[0]) else "1",
        "times": e["times"], "foft": e["foft"], "coft": e["coft"], "goft": e["goft"],
        "gener": gens, "diff": [trim(r) for r in e["diff"]],
        "outfmt": enc_num((q.get("output") or {}).get("format")), "outvars": e["outvars"],
        "eorder": e["eorder"],
        "elements": {k: {"s": prune(v["s"]), "center": pad(v["center"], 3)} for k, v in e["elements"].items()},
        "corder": e["corder"],
        "conns": {k: {"s": prune(v["s"]), "nadd": pad(v["nadd"], 2), "dist": pad(v["dist"], 2)}
                  for k, v in e["conns"].items()},
        "iorder": e["iorder"],
        "incons": {k: {"porosity": v["porosity"], "userx": trim(v["userx"]), "values": trim(v["values"])}
                   for k, v in e["incons"].items()},
    }


# -- random parameters --------------------------------------------------------
class Gen:
    def __init__(self, rng, style=None):
        self.r = rng
        self.style = style or rng.choice(["plain", "plain", "wide", "numpy"])
        self.big = rng.random() < 0.03

    def n(self, hi, big):
        """A number of entries; now and then a large one."""
        return self.r.randint(1, big if self.big and self.flip(0.6) else hi)

    def flip(self, p=0.5):
        return self.r.random() < p

    def num(self):
        """A number acceptable for a scalar field (no exact rounding ties)."""
        r = self.r
        k = r.random()
        if k < 0.12:
            x = r.randint(-20, 3000)
        elif k < 0.17:
            x = 0.0 if self.flip() else 0
        elif k < 0.5:
            x = float("%d.%de%d" % (r.randint(1, 9), r.randint(0, 999), r.randint(-15, 12))) * r.choice([1, 1, 1, -1])
        else:
            n = r.choice([1, 3, 5, 7, 9, 12, 15, 17])
            d = str(r.randint(1, 9)) + "".join(r.choice("0123456789") for _ in range(n - 1)) + r.choice("12346789")
            e = r.randint(-30, 20)
            if self.style == "wide":
                e = r.choice([r.randint(-30, 20), r.randint(-307, -99), r.randint(99, 280)])
            x = float("%s%s.%se%d" % (r.choice(["", "", "-"]), d[0], d[1:], e))
        if not self.ok(x):
            return self.num()
        if self.style == "numpy":
            if isinstance(x, int):
                x = r.choice([int, numpy.int32, numpy.int64])(x)
            else:
                x = r.choice([float, numpy.float64])(x)
                if self.flip(0.1):
                    x = numpy.float32(r.choice([0.5, 0.25, 1.5, 8.125, 3.0, -2.75]))
        return x

    @staticmethod
    def ok(x):
        # the last significant digit is not 5 (no ties at any precision)
        s = enc_num(float(x))
        return not s.split("E")[0].endswith("5") or len(s.split("E")[0].strip("f-")) <= 3

    def int_(self, width, lo=0):
        x = self.r.randint(lo, 10 ** self.r.randint(1, width) - 1)
        return self.r.choice([int, numpy.int64, numpy.int32])(x) if self.style == "numpy" and x < 2 ** 31 else x

    def lst(self, n, none=0.0, first=True):
        v = [None if (i or not first) and self.flip(none) else self.num() for i in range(n)]
        k = self.r.random()
        if None not in v:
            if k < 0.2:
                return tuple(v)
            if k < 0.45:
                return numpy.array([float(x) for x in v])
        return v

    def sub(self, keys, p=0.6, val=None):
        return {k: (val or (lambda k: self.num()))(k) for k in keys if self.flip(p)}

    def model(self):
        n = self.r.choice([0, 1, 2, 3, 4, 5, 6, 7, 7])
        return {"id": self.int_(2), "parameters": self.lst(n, 0.15, False)}

    def rockname(self, used):
        while True:
            n = self.r.choice(["ROCK", "SAND", "CLAY", "QZ", "bound", "fault", "R", "a1", "B-2", "2M", "0Q", "A B"])
            n = (n + self.r.choice(["", "1", "2", "x"]))[:5]
            if n not in used:
                return n

    def rock(self, ic_n, extra=0.5):
        d = self.sub(SCALARS, 0.7)
        if self.flip(0.75):
            d["permeability"] = self.num() if self.flip(0.6) else self.lst(3)
        if self.flip(extra):
            d.update(self.sub(EXTRA, 0.5))
        if ic_n and self.flip(0.6):
            d["initial_condition"] = self.ic(ic_n)
        for k in ("relative_permeability", "capillarity", "permeability_model", "equivalent_pore_pressure"):
            if self.flip(0.4):
                d[k] = self.model()
        return d

    def ic(self, n):
        """Primary variables: up to 4, or more than 4 with at least one set beyond."""
        v = self.lst(n if n <= 4 else self.r.randint(5, 8), 0.15)
        if n > 4 and all(x is None for x in v[4:]):
            v = list(v)
            v[-1] = self.num()
        return v

    def label(self, i, n):
        from string import ascii_uppercase
        a = ascii_uppercase[i % 3 + (0 if self.flip(0.9) else 10)]
        return a + "%s%s" % ("123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"[i % 35], self.lab_c) + str(i % 10 ** (n - 3)).zfill(n - 3)

    def whole(self, m, n):
        was, self.mixed = self.mixed, False
        out = self.labels(m, n)
        self.mixed = was
        return out

    def labels(self, m, n):
        self.lab_c = self.r.choice("1A9Z")
        out = []
        while len(out) < m:
            # shorter labels among labels as long as given
            lab = self.label(self.r.randint(0, 999), n if not self.mixed or (len(out) == m - 1 and not any(len(x) == n for x in out)) else self.r.randint(5, n))
            if lab not in out:
                out.append(lab)
        return out

    def gen(self, auto):
        r = self.r
        n = r.choice([1, 1, 1, 2, 3]) if not self.big else r.choice([1, 2, 11])
        lt = r.choice([2, 3, 4, 5, 8, 9]) if not self.big else r.choice([4, 20, 99, 100, 101])
        keys = {}

        def one(k, comp):
            if k == "name":
                return r.choice(["INJ", "WEL", "G", "Src"]) + str(r.randint(0, 9)) + r.choice(["", "0"])
            if k in ("nseq", "nadd", "nads"):
                return self.int_(3)
            if k == "type":
                return types[comp]
            return self.num()
        kinds = [r.choice(["c", "t", "t+h", "c", "none"]) for _ in range(n)]
        types = [r.choice(["COM1", "MASS", "HEAT", "DELV", "COM2"] if k[0] != "t" else ["COM1", "MASS", "COM2"]) for k in kinds]
        d = {}
        for k in GENKEYS:
            vals = []
            for j in range(n):
                kind = kinds[j]
                if k == "type":
                    v = one(k, j)
                elif k == "times":
                    v = self.lst(lt) if kind.startswith("t") else None
                elif k == "rates":
                    v = self.lst(lt) if kind.startswith("t") else self.num() if kind == "c" else None
                elif k == "specific_enthalpy":
                    v = self.lst(lt) if kind == "t+h" else self.num() if kind == "c" and self.flip() else None
                else:
                    v = one(k, j) if self.flip(0.5) else None
                vals.append(v)
            if n > 1 and k in ("name", "nseq", "nadd", "nads", "layer_thickness") and self.flip(0.3):
                vals = [one(k, 0)] * n          # components that share a value
            d[k] = vals
        if n == 1:
            d = {k: v[0] for k, v in d.items()}
            if self.flip():
                d = {k: v for k, v in d.items() if v is not None or k == "type"}
        else:
            for k in list(d):
                if all(v is None for v in d[k]) and k != "type":
                    if self.flip():
                        d[k] = None
                    else:
                        del d[k]
        return d

    def params(self, block="all", ll=5, auto=True, sections=None):
        r = self.r
        p = {}
        on = lambda s, q=0.45: (s in sections) if sections is not None else self.flip(q)
        icn = r.choice([0, 2, 4, 6])
        self.mixed = not auto and ll > 5 and self.flip(0.25)
        if block == "all":
            k = r.random()
            if k < 0.7:
                p["title"] = r.choice(["A title", "x", "", "Sample 1 of 2 - CO2", "T" * 80])
            elif k < 0.9:
                p["title"] = r.choice([list, tuple])(["line %d" % i for i in range(r.randint(1, 4))])
            names = []
            if on("rocks", 0.8):
                p["rocks"] = {}
                for _ in range(self.n(4, 30)):
                    nm = self.rockname(names)
                    names.append(nm)
                    p["rocks"][nm] = self.rock(icn)
                if self.flip(0.4):
                    o = list(names)
                    r.shuffle(o)
                    o = o[:r.randint(1, len(o))]
                    p["rocks_order"] = r.choice([list, tuple, numpy.array])(o)
            if on("default"):
                d = self.rock(0, 0.4)
                if self.flip(0.6):
                    d["initial_condition"] = self.ic(icn or 3)
                p["default"] = d
            if on("flac", 0.3):
                p["flac"] = self.sub(["creep", "porosity_model", "version"], 0.6,
                                     lambda k: self.flip() if k == "creep" else self.int_(3))
            if on("multi", 0.6):
                if self.flip(0.6):
                    p["eos"] = r.choice(EOS)
                if self.flip(0.5) or "eos" not in p:
                    p["n_component"], p["n_phase"] = r.randint(1, 8), r.randint(1, 5)
                    if "eos" in p and self.flip(0.4):
                        del p[r.choice(["n_component", "n_phase"])]
                if self.flip(0.3):
                    p["n_component_mass"] = r.randint(1, 9)
                if self.flip(0.4):
                    p["isothermal"] = self.flip(0.7)
            for k in ("start", "nover"):
                if self.flip(0.5):
                    p[k] = self.flip()
            if on("solver", 0.35):
                p["solver"] = self.sub(["method", "z_precond", "o_precond", "rel_iter_max", "eps"], 0.6, lambda k:
                                       r.randint(2, 8) if k == "method" else
                                       r.choice(["Z0", "Z1", "Z4"]) if k == "z_precond" else
                                       r.choice(["O0", "O1", "O4"]) if k == "o_precond" else self.num())
            if on("options", 0.7):
                p["options"] = self.sub(OPT, r.choice([0.2, 0.5, 0.9]), lambda k: self.int_(INTOPT[k]) if k in INTOPT else self.num())
                if self.flip(0.6):
                    p["options"]["t_steps"] = self.num() if self.flip(0.4) else self.lst(r.choice([1, 2, 7, 8, 9, 16, 17, 25] if not self.big else [17, 73, 104]))
                for k in OPT:
                    if k not in p["options"] and self.flip(0.1):
                        p["options"][k] = None
            if on("extra", 0.5):
                p["extra_options"] = {i: (None if self.flip(0.05) else r.randint(0, 9)) for i in range(1, 25) if self.flip(0.4)}
            if on("more", 0.3):
                p["more_options"] = {i: r.randint(0, 9) for i in range(1, 41) if self.flip(0.3)}
            if on("selections", 0.4):
                s = {}
                k = r.random()
                if k < 0.35:
                    s["floats"] = self.lst(r.randint(1, 8), 0.1)
                elif k < 0.7:
                    s["floats"] = [self.lst(r.randint(1, 8), 0.1) for _ in range(self.n(4, 14))]
                    if self.flip(0.15):
                        s["floats"] = numpy.array([[float(self.num()) for _ in range(3)] for _ in range(r.randint(1, 3))])
                if self.flip(0.7):
                    s["integers"] = {i: self.int_(4) for i in range(2 if self.flip(0.8) or "floats" not in s else 1, 17) if self.flip(0.4)}
                if s:
                    p["selections"] = s
            if on("times", 0.4):
                p["times"] = self.num() if self.flip(0.25) else self.lst(r.choice([1, 2, 7, 8, 9, 16, 17] if not self.big else [17, 99, 100, 137]))
            if on("foft", 0.35):
                p["element_history"] = self.labels(self.n(4, 40), ll)
            if on("coft", 0.35):
                p["connection_history"] = [a + b for a, b in zip(self.whole(30, ll), self.whole(30, ll))][:self.n(3, 30)]
            if on("goft", 0.35):
                p["generator_history"] = self.labels(self.n(4, 40), ll)
            if on("diffusion", 0.35):
                nph = p.get("n_phase") or EOS_NPH.get(p.get("eos"), 3)
                p["diffusion"] = [self.lst(nph, 0.1) for _ in range(self.n(4, 9))]
                if self.flip(0.3):
                    p["diffusion"] = numpy.array([[float(self.num()) for _ in range(nph)] for _ in range(2)])
            if on("output", 0.45):
                o = {}
                if self.flip(0.6):
                    o["format"] = r.choice(["csv", "tecplot", "PETRASIM", "Csv"])
                if self.flip(0.7):
                    o["variables"] = {}
                    for nm in r.sample(["saturation", "coordinate", "mass fraction", "flow", "velocity", "Pressure"], r.randint(1, 4)):
                        o["variables"][nm] = r.choice([None, r.randint(1, 9), [r.randint(1, 9), r.randint(1, 9)],
                                                       [r.randint(1, 9)], [[r.randint(1, 9), 3]],
                                                       [[1, r.randint(1, 9)], [2, r.randint(1, 9)]],
                                                       [[r.randint(1, 9)], [2, 3], [4]],
                                                       numpy.array([r.randint(1, 9), 2]), [None, r.randint(1, 9)], (r.randint(1, 9), 4),
                                                       numpy.array([[1, r.randint(1, 9)], [2, 7], [3, 4]])])
                    if self.big:
                        o["variables"]["flow"] = [[r.randint(1, 9), i] for i in range(1, r.choice([9, 10, 11, 13]))]
                if o and self.flip(0.3):
                    o = {"format": None, "variables": None, **o}
                if o:
                    p["output"] = o
        if block in ("all", "gener") and (on("gener", 0.5) or block == "gener"):
            p["generators"] = {}
            for lab in self.labels(self.n(4, 12), ll):
                p["generators"][lab] = self.gen(auto)
        if block in ("all", "mesh") and (on("mesh", 0.5) or block == "mesh"):
            labs = self.labels(self.n(5, 60), ll)
            coord = self.flip(0.35)
            if coord:
                p["coordinates"] = True
            p["elements"] = {}
            for lab in labs:
                e = self.sub(["nseq", "nadd", "volume", "heat_exchange_area", "permeability_modifier"], 0.5,
                             lambda k: self.int_(3) if k[0] == "n" else self.num())
                if self.flip(0.8):
                    e["material"] = r.choice(["ROCK1", "SAND", "q", 1, 12, 12345, "1A2", "R2", "BOUND", "bound", "", 0, "0AB", "00X1", "A 1"])
                    if self.style == "numpy" and isinstance(e["material"], int):
                        e["material"] = numpy.int64(e["material"])
                if coord or self.flip(0.8):
                    e["center"] = self.lst(3)
                p["elements"][lab] = e
            if self.flip(0.5):
                o = list(labs)
                r.shuffle(o)
                p["elements_order"] = r.choice([list, tuple, numpy.array])(o)
            if len(labs) > 1 and not self.mixed and self.flip(0.8):
                p["connections"] = {}
                for _ in range(self.n(5, 80)):
                    a, b = r.sample(labs, 2)
                    c = self.sub(CNS, 0.6, lambda k: self.int_(3) if k == "nseq" else r.randint(1, 3) if k[0] == "p" else self.num())
                    if self.flip(0.25):
                        c["nadd"] = r.choice([list, tuple, numpy.array])([self.int_(2 if ll > 8 else 3), self.int_(2 if ll > 8 else 3)])
                    if self.flip(0.85):
                        c["nodal_distances"] = self.lst(2)
                    p["connections"][a + b] = c
                if self.flip(0.5):
                    o = list(p["connections"])
                    r.shuffle(o)
                    p["connections_order"] = r.choice([list, tuple, numpy.array])(o)
        if block in ("all", "incon") and (on("incon", 0.5) or block == "incon"):
            p["initial_conditions"] = {}
            n = icn or 4
            for lab in self.labels(self.n(5, 50), ll):
                d = {"values": self.ic(n)}
                if self.flip(0.5):
                    d["porosity"] = self.num()
                if self.flip(0.4):
                    d["userx"] = self.lst(r.randint(1, 5), 0.1)
                p["initial_conditions"][lab] = d
            if self.flip(0.5):
                o = list(p["initial_conditions"])
                r.shuffle(o)
                p["initial_conditions_order"] = r.choice([list, tuple, numpy.array])(o)
        return p
