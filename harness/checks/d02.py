"""D02: the text of written decks, judged by the specification's own reader."""
from decks import *


def run(c):
    c.mc("NumberMC", NUMMC % (c.quick(6, 8), '"1", "9"'), workers=4, name="numbers in fields")
    rng = c.rng
    evs = []
    for _ in range(c.quick(1100, 8000)):
        blk, ll, auto = pick(rng)
        p = Gen(rng).params(blk, ll, auto, sections(rng))
        P = enc_p(p, blk)
        _, err = guarded(write, p, blk)
        ls = lines_of() if not err else []
        # every record but title, keyword lines and counters is 80 columns wide
        narrow = sum(1 for x in ls if len(x) > 80)
        evs.append(dict(ev="layout", P=P, lines=ls, ll=0 if auto else ll, narrow=narrow, err=err, _p=p))
        c.count("records", len(ls))
        c.count("label_length_%d" % ll)
        census(c, p)
    c.sample(lambda: {"deck": evs[0]["lines"][:25]})
    report(c, c.trace("DeckTrace", evs))
    c.assumptions += ["column tables of spec/DeckFormat.tla transcribe the TOUGH user guides"]
