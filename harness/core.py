"""Machinery shared by every check: TLC runs, verdicts, evidence, reporting.

Exit status of a check: 0 held on everything explored, 1 violation (with a
VIOLATION line), 2 machinery failure.
"""
import concurrent.futures
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

if REPO not in sys.path:
    sys.path.insert(0, REPO)


class MachineryError(Exception):
    pass


class TlcResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        ms = re.findall(r"(\d+) states generated", out)
        self.generated = int(m.group(1)) if m else (int(ms[-1]) if ms else 0)
        self.distinct = int(m.group(2)) if m else 0
        self.ok = rc == 0 and ("No error has been found" in out or "states generated" in out)
        self.prints = []
        for line in out.splitlines():
            if line.startswith('"@'):
                try:
                    self.prints.append(json.loads(line))
                except ValueError:
                    raise MachineryError("unparsable TLC output line: " + line[:300])

    def tagged(self, tag):
        """JSON payloads of lines printed as "@tag {json}"."""
        n = len(tag) + 2
        # in an order that does not depend on which worker found a state first
        return [json.loads(s[n:]) for s in sorted(s for s in self.prints if s.startswith("@" + tag + " "))]


def run_tlc(module, cfg_text, env=None, workers=1, timeout=600, heap="3g", args=(), must_pass=True):
    """Run TLC on /verif/spec/<module>.tla with the given configuration text."""
    work = tempfile.mkdtemp(prefix="tlc_")
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(work, f))
        with open(os.path.join(work, "run.cfg"), "w") as f:
            f.write(cfg_text)
        cmd = ["java", "-Djava.io.tmpdir=" + work, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=4",
               "-Xss64m", "-Xmx" + heap, "-cp", JARS, "tlc2.TLC", "-config", "run.cfg",
               "-workers", str(workers), "-metadir", os.path.join(work, "meta"),
               "-noGenerateSpecTE"] + list(args) + [module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        p = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
        out = p.stdout.decode("utf-8", "replace")
        r = TlcResult(out, p.returncode)
        if must_pass and not (r.rc == 0):
            raise MachineryError("TLC failed on %s (rc %s):\n%s" % (module, p.returncode, out[-6000:]))
        return r
    except subprocess.TimeoutExpired:
        raise MachineryError("TLC timed out on " + module)
    finally:
        shutil.rmtree(work, ignore_errors=True)


TRACE_CFG = "SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\nPOSTCONDITION TraceComplete\n"


class Check:
    def __init__(self, pid, argv=None):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random("%s-%d" % (pid, self.seed))
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.clauses = {}
        self.mc_runs = []
        self.notes = {}
        self.failures = []
        self.known = []
        self.assumptions = []
        self.level = "model_checking"
        self.scratch = tempfile.mkdtemp(prefix="chk_%s_" % pid)
        self.cwd0 = os.getcwd()
        os.chdir(self.scratch)
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            self.findings = json.load(f)["findings"]

    def quick(self, q, t):
        """Value by tier."""
        return t if self.tier == "thorough" else q

    # -- specification side -------------------------------------------------
    def mc(self, module, cfg, name=None, workers=4, **kw):
        r = run_tlc(module, cfg, workers=workers, **kw)
        self.states += r.distinct
        self.transitions += r.generated
        self.mc_runs.append({"module": module, "name": name or module,
                             "distinct_states": r.distinct, "states_generated": r.generated})
        return r

    def trace(self, module, events, chunks=None, consts="", per_chunk=None, groups=None, heap="3g", workers=1, env=None):
        """Validate recorded events with <module>.tla.

        events: JSON objects, each judged by the trace specification's Verdict
        (or, with `groups`, lists of events forming one history each: a history is
        never split).  Returns a list of (event, [failing clauses]).
        """
        import multiprocessing
        hist = groups if groups is not None else [[e] for e in events]
        if not hist:
            return []
        n = chunks or min(8, max(1, len(hist) // 4))
        # longest histories first, to the least loaded part
        size = [sum(len(json.dumps({k: v for k, v in e.items() if not k.startswith("_")})) + 200 for e in h) for h in hist]
        parts, load = [[] for _ in range(n)], [0] * n
        for i in sorted(range(len(hist)), key=lambda i: -size[i]):
            k = load.index(min(load))
            parts[k].append(hist[i])
            load[k] += size[i]
        def once(evs):
            fd, path = tempfile.mkstemp(suffix=".ndjson", dir=self.scratch)
            with os.fdopen(fd, "w") as f:
                for e in evs:
                    f.write(json.dumps({k: v for k, v in e.items() if not k.startswith("_")}) + "\n")
            en = {"TRACE": path}
            en.update(env or {})
            return run_tlc(module, TRACE_CFG + consts, env=en, workers=workers, timeout=850, heap=heap, must_pass=False)

        def job(part):
            """Judge the histories of one part.  What the specification cannot even
            evaluate (values of a shape that it never gives) is a failure of that event,
            and its history is left out of the next attempt."""
            part, strange = list(part), []
            for _ in range(4):
                evs = [e for h in part for e in h]
                if not evs:
                    return evs, None, strange
                r = once(evs)
                if r.rc == 0:
                    return evs, r, strange
                at = re.findall(r"^(?:/\\ )?l = (\d+)$", r.out, re.M)
                if not at or "TLC threw an unexpected exception" not in r.out and "Attempted to" not in r.out:
                    raise MachineryError("TLC failed on %s (rc %s):\n%s" % (module, r.rc, r.out[-6000:]))
                k = int(at[-1])
                if not 1 <= k <= len(evs):
                    raise MachineryError("TLC failed on %s (rc %s):\n%s" % (module, r.rc, r.out[-6000:]))
                why = r.out[r.out.rfind("Attempted to"):][:300] if "Attempted to" in r.out else r.out[-300:]
                strange.append((evs[k - 1], [{"l": k, "clauses": ["outside_specification"], "why": why}]))
                n = 0
                for i, h in enumerate(part):
                    n += len(h)
                    if k <= n:
                        del part[i]
                        break
            return [], None, strange

        bad = []
        with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
            for evs, r, strange in ex.map(job, [p for p in parts if p]):
                bad += strange
                if r is None:
                    continue
                self.states += r.distinct
                self.transitions += r.generated
                byidx = {}
                for d in r.tagged("FAIL"):
                    byidx.setdefault(d["l"], []).append(d)
                done = r.tagged("DONE")
                if not done or done[-1]["n"] != len(evs):
                    raise MachineryError("trace of %d events not consumed by %s:\n%s"
                                         % (len(evs), module, r.out[-3000:]))
                for c, k in (done[-1].get("clauses") or {}).items() if isinstance(done[-1].get("clauses"), dict) else []:
                    self.clauses[c] = self.clauses.get(c, 0) + k
                for i, ds in byidx.items():
                    bad.append((evs[i - 1], ds))
                self.events += len(evs)
        self.traces += len(hist)
        return bad

    # -- verdicts -------------------------------------------------------------
    def fail(self, clause, what, replay, signature=None):
        """Report one failing case. `signature` identifies it among known findings."""
        sig = signature or clause
        for f in self.findings:
            if f.get("status") == "known" and f["property"] == self.pid and f["signature"] == sig:
                if f["id"] not in self.known:
                    self.known.append(f["id"])
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, f["what"]))
                return
        self.failures.append({"clause": clause, "what": what, "signature": sig, "replay": replay})

    def count(self, clause, n=1):
        self.clauses[clause] = self.clauses.get(clause, 0) + n

    def sample(self, s, limit=6):
        """Keep an example for the evidence file (never a reason to stop)."""
        if len(self.samples) < limit:
            try:
                self.samples.append(s() if callable(s) else s)
            except (LookupError, StopIteration, TypeError):
                pass

    def finish(self):
        os.chdir(self.cwd0)
        wall = time.time() - self.t0
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "events_judged": self.events,
            "samples": self.samples or ["none"],
            "clauses": self.clauses,
            "model_runs": self.mc_runs,
        }
        cov.update(self.notes)
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(wall, 2),
            "violations": len(self.failures),
        }
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        shutil.rmtree(self.scratch, ignore_errors=True)
        print("%s: %d model states, %d transitions, %d traces (%d events) validated, %.1f s"
              % (self.pid, self.states, self.transitions, self.traces, self.events, wall))
        if self.failures:
            rd = os.path.join(VERIF, "replays")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "%s-%d.json" % (self.pid, os.getpid()))
            with open(path, "w") as f:
                json.dump({"property": self.pid, "seed": self.seed, "tier": self.tier,
                           "failures": self.failures[:200], "n_failures": len(self.failures)},
                          f, indent=1, default=str)
            for x in self.failures[:5]:
                print("  failing clause %s: %s" % (x["clause"], str(x["what"])[:400]))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        return 0


class Hang(Exception):
    pass


_HANGS = [0]


def guarded(fn, *args, timeout=20, **kw):
    """Call into the code under test. Returns (result, "") or (None, error text)."""
    import signal

    def onalarm(*_):
        _HANGS[0] += 1
        raise Hang()

    # Code that hangs on one input is likely to hang on others: a verdict needs no more waiting.
    timeout = timeout if _HANGS[0] < 3 else min(timeout, 3 if _HANGS[0] < 12 else 0.5)
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        return fn(*args, **kw), ""
    except Hang:
        return None, "HANG"
    except MachineryError:
        raise
    except SystemExit as e:
        return None, "SystemExit: %s" % e
    except Exception as e:
        return None, "%s: %s" % (type(e).__name__, str(e)[:200])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def from_code_under_test(e):
    """Whether an exception passed through the code under test, here or in a worker process."""
    root = os.path.join(REPO, "toughio") + os.sep
    remote = str(e.__cause__) if type(e.__cause__).__name__ == "RemoteTraceback" else ""
    return 'File "%s' % root in remote or any(os.path.abspath(fr.filename).startswith(root) for fr in traceback.extract_tb(e.__traceback__))


def main(fn, pid):
    """Run one check. An exception that escapes from the code under test is a verdict."""
    try:
        import logging
        logging.disable(logging.CRITICAL)
        c = Check(pid)
        try:
            fn(c)
        except MachineryError:
            raise
        except Exception as e:
            # The harness is deterministic and handles every result the specification allows: if it cannot
            # process a result, this is not one of them. Anything else is a failure of the machinery.
            odd = isinstance(e, (LookupError, TypeError, ValueError, AttributeError, AssertionError, ArithmeticError)) \
                and not isinstance(e, (UnicodeError, json.JSONDecodeError))
            if not (odd or from_code_under_test(e)):
                raise
            traceback.print_exc()
            c.fail("unexpected_exception" if from_code_under_test(e) else "uninterpretable_result", "%s: %s" % (type(e).__name__, e), traceback.format_exc())
        rc = c.finish()
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)


# -- canonical encoding of values (see spec/Text.tla) -------------------------
def enc_num(x):
    import decimal
    import numpy
    if x is None:
        return "~"
    if isinstance(x, (bool, numpy.bool_)):
        return "bT" if x else "bF"
    if isinstance(x, (int, numpy.integer)):
        return "i%d" % int(x)
    if isinstance(x, (float, numpy.floating)):
        return fcanon(float(x))
    if isinstance(x, str):
        return "s" + x
    return "?" + type(x).__name__ + ":" + repr(x)[:80]


def fcanon(x):
    import decimal
    import math
    if math.isnan(x):
        return "fnan"
    if math.isinf(x):
        return "finf" if x > 0 else "f-inf"
    if x == 0:
        return "f0E0"
    s, dg, e = decimal.Decimal(repr(x)).as_tuple()
    d = "".join(map(str, dg)).lstrip("0")
    n = len(d)
    d = d.rstrip("0")
    e += n - len(d)
    return "f%s%sE%d" % ("-" if s else "", d, e)


def num_of(s):
    """Python value of a canonical string."""
    if s == "~":
        return None
    if s in ("bT", "bF"):
        return s == "bT"
    if s[0] == "i":
        return int(s[1:])
    if s[0] == "s":
        return s[1:]
    if s == "fnan":
        return float("nan")
    d, e = s[1:].split("E")
    return float(d + "e" + e)
