"""D05: JSON input files."""
from decks import *


def run(c):
    import toughio
    rng = c.rng
    evs = []
    for i in range(c.quick(500, 4000)):
        blk, ll, auto = pick(rng)
        p = Gen(rng, rng.choice(["plain", "numpy", "numpy", "wide"])).params(blk, ll, auto, sections(rng))
        A, PA = flatten(p), enc_p(p, blk)
        how = rng.random() < 0.5

        def call():
            if how:
                toughio.write_input("f.json", p)
                return toughio.read_input("f.json")
            toughio.write_input("f.dat", p, file_format="json")
            return toughio.read_input("f.dat", file_format="json")
        q, err = guarded(call)
        r, err = encoded(lambda q: (flatten(q), enc_p(q, blk)), q, err)
        B, PB = ([], PA) if err else r
        evs.append(dict(ev="flat", A=A, B=B, PA=PA, PB=PB, err=err, _p=p))
        census(c, p)
        if i % 2:
            continue

        def conv():
            write(p, blk, "a")
            qa = read(auto, ll, "a")
            toughio.write_input("b.json", qa)
            qj = toughio.read_input("b.json")
            write(qj, blk, "b")
            return enc_q(qa), enc_q(read(auto, ll, "b"))
        r, err = guarded(conv)
        evs.append(dict(ev="same", A=r[0] if r else {}, B=r[1] if r else {}, err=err, _p=p))
        c.count("tough_json_tough")
    c.sample(lambda: {"flattened": evs[0]["A"][:12]})
    report(c, c.trace("DeckTrace", evs))
    c.assumptions += ["keys of options, rocks, elements ... are strings; keys of extra_options, more_options, selections integers are Python integers"]
