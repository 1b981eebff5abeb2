"""Decks written by somebody else: values laid out with the specification's
column tables, in any block order, notation, justification and padding."""
import json
from core import run_tlc, enc_num
from deckgen import Gen, isl, SCALARS, EXTRA, OPT, CNS

_tab = {}


def tables():
    if not _tab:
        r = run_tlc("DeckTables", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n")
        _tab.update(r.tagged("FIXED")[0])
        for d in r.tagged("L"):
            _tab[d["len"]] = d
    return _tab


class Foreign:
    def __init__(self, rng, ll, auto, plain=False):
        self.r, self.ll, self.auto = rng, ll, auto
        self.t = tables()
        self.w = {"trim": rng.random() < 0.6, "left": rng.choice([0, 0.15, 0.5]), "nota": rng.choice([0, 0.3, 0.8]),
                  "comment": rng.choice([0, 0, 0.1])}

    def flip(self, p):
        return self.r.random() < p

    def number(self, x, w):
        """Some Fortran text of x in w columns."""
        x = float(x)
        c = []
        for p in range(0, 15):
            s = "%.*e" % (p, x)
            m, e = s.split("e")
            if "." not in m:
                m += "."
            ei = int(e)
            forms = [m + "e" + e, m + "E" + e, m + "E%+d" % ei, m + "e%d" % ei]
            if self.flip(self.w["nota"]):
                forms += [m + "%+03d" % ei, m + "%+04d" % ei, m + "D%+03d" % ei, m + "d%d" % ei, m + "%+d" % ei]
                if not m.startswith("-"):
                    forms += ["+" + forms[0], "+" + self.r.choice(forms)]
            c += [f for f in forms if len(f) <= w]
        for p in range(0, 8):
            if 1e-4 <= abs(x) < 1e8 or x == 0:
                s = "%.*f" % (p, x)
                if "." not in s:
                    s += "."
                if s.startswith("0.") and len(s) > 2 and self.flip(0.5):
                    s = s[1:]
                if s.startswith("-0.") and len(s) > 3 and self.flip(0.5):
                    s = "-" + s[2:]
                if len(s) <= w:
                    c.append(s)
        c = [s for s in c if Gen.ok(self.value(s))] or c[:1]
        c = [s for s in c if len(s) < w or self.flip(0.4)] or c
        return self.r.choice(c)

    @staticmethod
    def value(s):
        s = s.lower().replace("d", "e")
        if "e" not in s:
            for i in range(len(s) - 1, 0, -1):
                if s[i] in "+-":
                    s = s[:i] + "e" + s[i:]
                    break
        return float(s)

    def just(self, s, w, left=False):
        if left or self.flip(self.w["left"]):
            k = self.r.choice([0, 0, 1]) if not left else 0
            return (" " * min(k, w - len(s)) + s).ljust(w)
        return s.rjust(w)

    def rec(self, lay, d):
        """One record; d: field name -> value."""
        lay = self.t[lay] if isinstance(lay, str) else lay
        out = ""
        for i, f in enumerate(lay):
            out = out.ljust(f["c"] - 1)
            v = d.get(f["n"])
            if v is None:
                s = " " * f["w"]
            elif f["k"] == "f":
                s = self.just(self.number(v, f["w"]), f["w"])
            elif f["k"] == "i":
                t = str(int(v))
                prev_digit_risk = self.auto and i > 0 and f["n"] == "nseq"
                s = t.rjust(f["w"]) if prev_digit_risk else self.just(t, f["w"])
            elif f["k"] == "S":
                s = v.ljust(f["w"])
            else:
                s = self.just(str(v), f["w"], left=f["c"] == 1 or f["n"] in ("label", "name")) if not isinstance(v, int) else str(v).rjust(f["w"])
            assert len(s) == f["w"], (f, s)
            out += s
        return self.pad(out)

    def pad(self, s):
        if not s.strip():
            return self.r.choice(["", " " * 80]) if not self.w["trim"] else ""
        if self.flip(self.w["comment"]):
            return s.ljust(80) + "  ! 1.0 comment"
        return s.rstrip() if self.w["trim"] else s.ljust(80)

    def recs(self, lay, vals):
        n = len(self.t[lay])
        vals = list(vals)
        return [self.rec(lay, {str(j + 1): v for j, v in enumerate(vals[i:i + n])}) for i in range(0, len(vals), n)]

    def head(self, kw):
        return kw.ljust(5) + self.r.choice(["", "----1----*----2----*----3", " ", " a comment"]) if self.flip(0.8) else kw

    def end(self, plus=False):
        if plus and self.flip(0.35):
            return self.r.choice(["+++", "+++  something 12 3.0E0"])
        return self.r.choice(["", " " * 80])

    def model(self, lay, m):
        if not m or m.get("id") is None:
            return self.rec(lay, {})
        d = {"id": m["id"]}
        d.update({str(i + 1): v for i, v in enumerate(m["parameters"])})
        return self.rec(lay, d)

    # -- blocks -------------------------------------------------------------
    def var(self, v):
        v = list(v) if v is not None else []
        return self.recs("VAR4", v) if len(v) > 4 else [self.rec("VAR4", {str(i + 1): x for i, x in enumerate(v)})]

    def blocks(self, p):
        r = self.r
        B = {}
        names = list((p.get("rocks") or {}).keys())
        r.shuffle(names)
        if "rocks" in p:
            out = [self.head("ROCKS")]
            for n in names:
                k = p["rocks"][n]
                per = k.get("permeability")
                per = list(per) if isl(per) else [per] * 3
                extra = any(k.get(e) is not None for e in EXTRA)
                models = "relative_permeability" in k or "capillarity" in k
                nad = 2 if models else 1 if extra else r.choice([None, None, 0, 1])
                d = {"name": n, "nad": nad, "per1": per[0], "per2": per[1], "per3": per[2]}
                d.update({s: k.get(s) for s in SCALARS})
                out.append(self.rec("ROCKS1", d))
                if nad:
                    out.append(self.rec("ROCKS2", {e: k.get(e) for e in EXTRA}))
                if nad == 2:
                    out += [self.model("RPCAPR", k.get("relative_permeability")), self.model("RPCAPR", k.get("capillarity"))]
            B["ROCKS"] = out + [self.end()]
            if "flac" in p:
                f = p["flac"]
                out = [self.head("FLAC"), self.rec("FLAC1", {"creep": None if f.get("creep") is None else int(f["creep"]),
                       "porosity_model": f.get("porosity_model"), "version": f.get("version")})]
                for n in names:
                    out += [self.model("FLAC2", p["rocks"][n].get("permeability_model") or {"id": 1, "parameters": []}),
                            self.model("FLAC3", p["rocks"][n].get("equivalent_pore_pressure") or {"id": 3, "parameters": []})]
                B["FLAC"] = out + [""]
            ind = [n for n in names if p["rocks"][n].get("initial_condition") is not None]
            if ind:
                r.shuffle(ind)
                out = [self.head("INDOM")]
                for n in ind:
                    out += [self.rec("NAME5", {"name": n})] + self.var(p["rocks"][n]["initial_condition"])
                B["INDOM"] = out + [self.end()]
        d = p.get("default") or {}
        if "relative_permeability" in d or "capillarity" in d:
            B["RPCAP"] = [self.head("RPCAP"), self.model("RPCAPR", d.get("relative_permeability")),
                          self.model("RPCAPR", d.get("capillarity"))]
        if p.get("n_component"):
            nk = p["n_component"]
            B["MULTI"] = [self.head("MULTI"), self.rec("MULTI1", {"NK": nk, "NEQ": nk + r.randint(0, 1), "NPH": p.get("n_phase"),
                          "NB": r.choice([None, 6, 8]), "NKIN": p.get("n_component_mass")})]
        if "solver" in p:
            B["SOLVR"] = [self.head("SOLVR"), self.rec("SOLVR1", p["solver"])]
        if p.get("start", True):
            B["START"] = [self.head("START")] + (["----*----1 MOP: 123456789*123456789*1234"] if self.flip(0.5) else [])
        if p.get("nover"):
            B["NOVER"] = [self.head("NOVER")]
        if "options" in p or "extra_options" in p or d.get("initial_condition") is not None:
            o = dict(p.get("options") or {})
            mop = "".join(str(v) if v is not None else r.choice([" ", "*"]) for v in ((p.get("extra_options") or {}).get(i) for i in range(1, 25)))
            ts = o.pop("t_steps", None)
            rec = dict(o)
            rec["mop"] = mop
            if self.flip(0.2):
                rec["elst"] = "A1 12"
            rows = []
            if isl(ts):
                # any number of records, not always full
                ts = list(ts)
                rows = self.recs("TEN8", ts)
                rec["delten"] = -float(len(rows))
            else:
                rec["delten"] = None if ts is None else abs(float(ts))
            out = [self.head("PARAM"), self.rec("PARAM1", rec), self.rec("PARAM2", rec)] + rows
            out += [self.rec("PARAM3", rec)] + self.var(d.get("initial_condition"))
            B["PARAM"] = out
        if p.get("selections"):
            s = p["selections"]
            f = s.get("floats")
            rows = [] if f is None or len(f) == 0 else [list(x) for x in f] if isl(f[0]) else [list(f)]
            ints = dict(s.get("integers") or {})
            ints[1] = len(rows) if rows else r.choice([None, 0])
            B["SELEC"] = [self.head("SELEC"), self.rec("SELEC1", {str(k): v for k, v in ints.items()})] + \
                         [self.rec("SELEC2", {str(i + 1): v for i, v in enumerate(x)}) for x in rows]
        if p.get("more_options"):
            B["MOMOP"] = [self.head("MOMOP"), self.pad("".join(str(p["more_options"].get(i, " ")) for i in range(1, 41)))]
        if p.get("times") is not None:
            t = list(p["times"]) if isl(p["times"]) else [p["times"]]
            B["TIMES"] = [self.head("TIMES"), self.rec("TIMES1", {"iti": len(t), "ite": r.choice([None, len(t) + 3]),
                                                                  "tinter": r.choice([None, 10.0])})] + self.recs("TEN8", t)
        for kw, key in (("FOFT", "element_history"), ("COFT", "connection_history"), ("GOFT", "generator_history")):
            if p.get(key) is not None:
                B[kw] = [self.head(kw)] + [self.pad(x) if not self.w["comment"] else x for x in p[key]] + [self.end()]
        if p.get("generators"):
            out = [self.head("GENER")]
            comps = []
            for lab, g in p["generators"].items():
                n = len(g["type"]) if isl(g["type"]) else 1
                for j in range(n):
                    comps.append((lab, {k: (v[j] if isl(g["type"]) and v is not None else v) for k, v in g.items()}))
            # generators of one element need not be neighbours
            if self.flip(0.5):
                r.shuffle(comps)
            for lab, g in comps:
                tab = isl(g.get("times"))
                f = {"label": lab, "name": g.get("name"), "nseq": g.get("nseq"), "nadd": g.get("nadd"), "nads": g.get("nads"),
                     "type": g.get("type"), "hg": g.get("layer_thickness"),
                     "ltab": len(g["times"]) if tab else (r.choice([None, 0, 1]) if g.get("type") != "DELV" else r.choice([None, 4])),
                     "itab": (r.choice("1XE0") if tab and isl(g.get("specific_enthalpy")) else None),
                     "gx": None if tab else g.get("rates"), "ex": None if tab else g.get("specific_enthalpy")}
                out.append(self.rec(self.t[self.ll]["GENER1"], f))
                if tab:
                    out += self.recs("TABLE4", g["times"]) + self.recs("TABLE4", g["rates"])
                    if isl(g.get("specific_enthalpy")):
                        out += self.recs("TABLE4", g["specific_enthalpy"])
            B["GENER"] = out + [self.end()]
        if p.get("diffusion") is not None:
            B["DIFFU"] = [self.head("DIFFU")] + [self.rec("DIFFU1", {str(i + 1): v for i, v in enumerate(x)}) for x in p["diffusion"]]
            if self.flip(0.3):
                B["DIFFU"].append("")
        if p.get("output"):
            o = p["output"]
            out = [self.head("OUTPU")]
            if o.get("format"):
                out.append(o["format"])
            rows = []
            for k, v in (o.get("variables") or {}).items():
                for x in ([[v]] if not isl(v) else v if isl(v[0]) else [v]):
                    rows.append(self.rec("OUTPU3", {"name": r.choice([str.upper, str.title])(k), "1": x[0], "2": x[1] if len(x) > 1 else None}))
            if rows:
                out += [str(len(rows)).rjust(r.choice([1, 5, 15]))]
                if self.flip(0.3):
                    r.shuffle(rows)
                out += rows
            B["OUTPU"] = out
        T = self.t[self.ll]
        if p.get("elements"):
            out, co = [self.head("ELEME")], [self.head("COORD")]
            for lab, e in p["elements"].items():
                c = e.get("center")
                c = list(c) if c is not None else [None] * 3
                f = dict(e, label=lab, x=c[0], y=c[1], z=c[2])
                f["material"] = f.get("material") or None
                if f["material"] is not None and not isinstance(f["material"], str):
                    f["material"] = int(f["material"])
                out.append(self.rec(T["ELEME1"], f))
                co.append(self.rec("COORD1", {str(i + 1): x for i, x in enumerate(c)}))
            B["ELEME"] = out + [self.end()]
            if p.get("coordinates"):
                B["COORD"] = co + [self.end()]
        if p.get("connections"):
            out = [self.head("CONNE")]
            for lab, e in p["connections"].items():
                na = e.get("nadd") if e.get("nadd") is not None else [None, None]
                di = e.get("nodal_distances") if e.get("nodal_distances") is not None else [None, None]
                out.append(self.rec(T["CONNE1"], dict(e, label=lab, nad1=na[0], nad2=na[1], d1=di[0], d2=di[1])))
            B["CONNE"] = out + [self.end(True)]
        if p.get("initial_conditions"):
            out = [self.head("INCON")]
            for lab, e in p["initial_conditions"].items():
                u = list(e["userx"]) if e.get("userx") is not None else []
                f = dict({"label": lab, "porosity": e.get("porosity")}, **{"u%d" % (i + 1): v for i, v in enumerate(u)})
                out += [self.rec(T["INCON1"], f)] + self.var(e["values"])
            B["INCON"] = out + [self.end(True)]
        return B

    def deck(self, p, block="all"):
        """Lines of a whole deck (or of a partial file)."""
        r = self.r
        B = self.blocks(p)
        ks = list(B)
        r.shuffle(ks)

        def before(a, b):
            if a in ks and b in ks and ks.index(a) > ks.index(b):
                i, j = ks.index(a), ks.index(b)
                ks[i], ks[j] = ks[j], ks[i]
        before("ROCKS", "FLAC")
        before("ROCKS", "INDOM")
        before("ELEME", "COORD")
        if block == "all":
            t = p.get("title", "")
            out = [t] if isinstance(t, str) else list(t)
        else:
            out = []
            first = [k for k in ks if k in ("ELEME", "CONNE", "INCON", "GENER", "ROCKS")]
            ks.remove(first[0])
            ks.insert(0, first[0])
        for i, k in enumerate(ks):
            out += B[k]
            if self.flip(0.12) and k not in ("PARAM", "FLAC") and not (k in ("START",)):
                out += [r.choice(["", "MESHMAKER", "# a remark", "PAREN----1", "x 1.0 2.0"])]
        if block == "all":
            out.append(self.head("ENDCY"))
            if self.flip(0.4):
                out += r.choice([["", "text after the end"], ["ROCKS", "garbage"], ["START"], ["PARAM----"]])
        elif self.flip(0.3):
            out.append("")
        return out
