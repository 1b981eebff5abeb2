"""D03: decks written by somebody else."""
from decks import *


def run(c):
    import toughio
    rng = c.rng
    r = c.mc("DeckMC", DECKMC % (2, 1, ""), workers=8, name="all pairs of blocks in any order")
    c.mc("DeckMC", DECKMC % (c.quick(1, 2), 0, "Truncated"), workers=8, name="truncated at every line")
    if c.tier == "thorough":
        c.mc("DeckMC", DECKMC % (3, 0, ""), workers=8, name="all triples of blocks in any order", timeout=850)
    evs = []

    def ev(lines, auto, ll, p, own=False):
        # a last line that is blank needs its newline to be there at all
        text = "\n".join(lines) + ("\n" if not lines[-1].strip() or rng.random() < 0.7 else "")
        with open("f", "w", newline="") as f:
            f.write(text)
        q, err = guarded(read, auto, ll)
        Q, err = encoded(enc_q, q, err)
        evs.append(dict(ev="foreign", Q=Q, err=err, lines=lines, ll=0 if auto else ll, _p=p))

    for d in r.tagged("DECK"):
        ev(d["lines"], True, 5, None)
    c.count("spec_generated_decks", len(evs))
    for _ in range(c.quick(900, 7000)):
        blk, ll, auto = pick(rng)
        p = Gen(rng).params(blk, ll, auto, sections(rng))
        lines = Foreign(rng, ll, auto).deck(p, blk)
        ev(lines, auto, ll, p)
        c.count("label_length_%d" % ll)
        census(c, p)
        if rng.random() < 0.25:      # cut short: by lines or in the middle of a line
            text = "\n".join(lines)
            k = rng.randint(0, len(text))
            with open("f", "w", newline="") as f:
                f.write(text[:k] if rng.random() < 0.5 else "\n".join(lines[:rng.randint(0, len(lines))]) + "\n")
            _, err = guarded(read, auto, ll, timeout=10)
            evs.append(dict(ev="cut", err=err, _p=p, _k=k))
            c.count("truncated_decks")
    c.sample(lambda: {"deck": evs[-1].get("lines", evs[-2].get("lines"))})
    report(c, c.trace("DeckTrace", evs))
    c.assumptions += ["numbers carry a decimal point or exponent (no implied Fortran decimals)"]
