"""D04: read-write cycles."""
from decks import *


def run(c):
    rng = c.rng
    c.mc("NumberMC", NUMMC % (c.quick(6, 8), '"0", "9"'), workers=4, name="storing a number is idempotent")
    evs = []
    for _ in range(c.quick(500, 4000)):
        blk, ll, auto = pick(rng)
        p = Gen(rng).params(blk, ll, auto, sections(rng))
        own = rng.random() < 0.5
        n = rng.choice([2, 2, 3, 4])

        def call():
            if own:
                write(p, blk, "f0")
            else:
                ls = Foreign(rng, ll, auto).deck(p, blk)
                with open("f0", "w") as f:
                    f.write("\n".join(ls) + "\n")
            q = read(auto, ll, "f0")
            q0, p0, qs, texts = enc_q(q), enc_p(q, blk), [], [digest("f0")] if own else []
            if not own:
                texts.append("given")
            for i in range(n):
                write(q, blk, "f%d" % (i + 1))
                texts.append(digest("f%d" % (i + 1)))
                q = read(auto, ll, "f%d" % (i + 1))
                qs.append(enc_q(q))
            return q0, p0, qs, texts
        r, err = guarded(call)
        q0, p0, qs, texts = r if r else ({}, {}, [], [])
        evs.append(dict(ev="cycle", own="1" if own else "0", P0=p0, Q0=q0, Q=qs, texts=texts, err=err, _p=p))
        c.count("own_decks" if own else "foreign_decks")
        c.count("cycles", n)
        census(c, p)
    c.sample(lambda: {"deck": repr(evs[0]["_p"])[:500], "texts": evs[0]["texts"]})
    report(c, c.trace("DeckTrace", evs))
    c.assumptions += ["domain of D01/D03"]
