"""What the deck checks share."""
import hashlib

import numpy

from core import guarded, enc_num
from deckgen import Gen, enc_p, enc_q, isl
from foreign import Foreign

DECKMC = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxBlocks=%d Emit=%d\n"
          "INVARIANTS NothingSwallowed CleanRead OrderFree Progress %s\n")
NUMMC = ('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxDigits=%d DigitSet={%s}\n'
         'INVARIANTS Fits ReadBack Idempotent SameText FewDigits\n')


def pick(rng):
    blk = rng.choice(["all"] * 7 + ["mesh", "incon", "gener"])
    ll = rng.choice([5, 5, 5, 5, 6, 7, 8, 9])
    return blk, ll, rng.random() < 0.6


def sections(rng):
    """Sometimes only a few blocks, so that every neighbourhood occurs."""
    if rng.random() < 0.5:
        return None
    al = ["rocks", "default", "flac", "multi", "solver", "options", "extra", "more", "selections", "times", "foft",
          "coft", "goft", "diffusion", "output", "gener", "mesh", "incon"]
    return set(rng.sample(al, rng.randint(1, 5)))


def write(p, blk, path="f"):
    import toughio
    if blk == "all":
        toughio.write_input(path, p)
    else:
        toughio.write_input(path, p, block=blk)


def read(auto, ll, path="f"):
    import toughio
    return toughio.read_input(path) if auto else toughio.read_input(path, label_length=ll)


def encoded(enc, q, err, *args):
    """Encoding of a result and error text; a result of unexpected shape is an error."""
    if err:
        return {}, err
    r, e = guarded(enc, q, *args)
    return (r, "") if not e else ({}, "result: " + e)


def lines_of(path="f"):
    with open(path, newline="") as f:
        s = f.read()
    return s.split("\n")[:-1] if s.endswith("\n") else s.split("\n")


def digest(path):
    with open(path, "rb") as f:
        return hashlib.sha1(f.read()).hexdigest()[:16]


def report(c, bad):
    for e, ds in bad:
        for d in ds:
            for cl in d["clauses"]:
                k = cl.split("_", 1)[-1]
                what = {"clause": cl, "error": e.get("err"), "given": repr(e.get("_p"))[:1500]}
                for s in ("P", "Q", "PA", "PB"):
                    if isinstance(e.get(s), dict) and k in e[s]:
                        what[s] = e[s][k]
                c.fail(cl, what, {kk: v for kk, v in e.items()})


def census(c, p):
    for k in p:
        c.count("deck_with_" + k)


def flatten(x, path="", out=None):
    """["path=leaf", ...]; arrays and tuples are lists; kinds of keys are kept."""
    out = [] if out is None else out
    if isinstance(x, dict):
        out.append(path + "={}")
        for k, v in x.items():
            flatten(v, path + "/" + ("i" if isinstance(k, (int, numpy.integer)) else "s") + str(k), out)
    elif isl(x):
        out.append(path + "=[%d]" % len(x))
        for i, v in enumerate(x):
            flatten(v, path + "/%d" % i, out)
    else:
        out.append(path + "=" + enc_num(x))
    return out
