"""D01: write_input then read_input returns what was given."""
from decks import *


def run(c):
    c.mc("NumberMC", NUMMC % (c.quick(7, 9), '"4", "9"'), workers=4, name="numbers in fields")
    rng = c.rng
    evs = []
    for _ in range(c.quick(1100, 8000)):
        blk, ll, auto = pick(rng)
        p = Gen(rng).params(blk, ll, auto, sections(rng))
        P = enc_p(p, blk)

        def call():
            write(p, blk)
            return read(auto, ll)
        q, err = guarded(call)
        Q, err = encoded(enc_q, q, err)
        evs.append(dict(ev="roundtrip", P=P, Q=Q, err=err, _p=p, _q=q))
        census(c, p)
        c.count("label_length_%d" % ll)
        c.count("block_" + blk)
    c.sample(lambda: {"parameters": repr(evs[0]["_p"])[:600]})
    c.sample(lambda: {"parameters": repr(evs[7]["_p"])[:600]})
    report(c, c.trace("DeckTrace", evs))
    c.assumptions += ["labels start with a letter and are not truncated by the label length; integers fit their fields",
                      "no exact rounding ties (5 as last significant digit) are generated",
                      "one number of primary variables per deck (all up to 4 or all above 4)"]
