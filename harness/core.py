"""Property-based testing core.

A property module (harness/props/cNN.py) exposes FAMILIES, a list of Family.  Every
family is a function ``case(d)`` over a ``Draw``: all random choices go through ``d``
(thus through Hypothesis), and the drawn values are recorded so that a failing case can
be replayed without Hypothesis from the JSON replay file.
"""
import hashlib
import json
import os
import sys
import time
import traceback
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(AssertionError):
    pass


class Discard(Exception):
    """the generated case is outside the property's domain (counted, not judged)"""


def gave_up(e):
    """IPOPT stopped because CasADi's integrator found no step at one of IPOPT's own iterates: nothing of this package decides that"""
    t = str(e)
    return isinstance(e, RuntimeError) and "[IpoptInterface]" in t and "rootfinder process failed" in t


def check(cond, msg="", **info):
    if not cond:
        if info:
            msg = "%s | %s" % (msg, ", ".join("%s=%s" % (k, short(v)) for k, v in info.items()))
        raise Violation(msg)


def short(v, n=400):
    s = str(v)
    return s if len(s) <= n else s[:n] + "..."


def raises(fn, exc=Exception):
    """True if fn() raises exc"""
    try:
        fn()
    except exc:
        return True
    return False


class Family:
    def __init__(self, name, fn, quick, thorough=None, shards=1, tshards=None, budget=200):
        self.name, self.fn = name, fn
        self.quick, self.thorough = quick, thorough or quick * 10
        self.shards, self.tshards = shards, tshards or max(shards, 4)
        self.budget = budget


class Draw:
    """recording front end over hypothesis' data object"""

    def __init__(self, data=None, replay=None):
        self._data = data
        self._replay = list(replay) if replay is not None else None
        self.trace = []
        self.labels = []
        self.nontrivial = False
        self.notes = []
        # with VERIF_TRACE the choices are also streamed to a file, so that they survive a crash of the process
        self._stream = open(os.environ["VERIF_TRACE"], "w") if data is not None and os.environ.get("VERIF_TRACE") else None

    # -- primitives ---------------------------------------------------------
    def _take(self, strategy):
        if self._replay is not None:
            if not self._replay:  # the recorded case failed before this choice
                raise Discard("no recorded choices are left: the recorded failure does not occur")
            v = self._replay.pop(0)
        else:
            v = self._data.draw(strategy)
        self.trace.append(v)
        if self._stream is not None:
            self._stream.write(json.dumps(v) + "\n")
            self._stream.flush()
        return v

    def int(self, lo, hi):
        from hypothesis import strategies as st

        return self._take(st.integers(lo, hi))

    def bool(self):
        from hypothesis import strategies as st

        return self._take(st.booleans())

    def num(self, lo, hi, step=0.125):
        """a multiple of `step` in [lo, hi] (dyadic by default)"""
        k = self.int(int(round(lo / step)), int(round(hi / step)))
        return k * step

    def nonzero(self, lo, hi, step=0.125):
        v = self.num(lo, hi, step)
        return v if v != 0 else step

    def choice(self, seq):
        return seq[self.int(0, len(seq) - 1)]

    def weighted(self, pairs):
        """[(weight, value)...]"""
        total = sum(w for w, _ in pairs)
        k = self.int(0, total - 1)
        for w, v in pairs:
            if k < w:
                return v
            k -= w

    def vec(self, n, lo, hi, step=0.125):
        return [self.num(lo, hi, step) for _ in range(n)]

    def subset(self, seq, min_size=0):
        """an ordered sub-list (order of seq)"""
        keep = [self.bool() for _ in seq]
        out = [s for s, k in zip(seq, keep) if k]
        i = 0
        while len(out) < min_size and i < len(seq):
            if not keep[i]:
                keep[i] = True
                out = [s for s, k in zip(seq, keep) if k]
            i += 1
        return out

    def perm(self, seq):
        seq = list(seq)
        out = []
        while seq:
            out.append(seq.pop(self.int(0, len(seq) - 1)))
        return out

    # -- classification -----------------------------------------------------
    def label(self, text):
        self.labels.append(text)

    def interesting(self, cond=True):
        if cond:
            self.nontrivial = True

    def note(self, text):
        self.notes.append(short(text, 300))


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.discards = 0
        self.skipped = 0
        self.distinct = set()
        self.labels = {}
        self.samples = []

    def add(self, d, elapsed):
        self.evaluations += 1
        if elapsed > float(os.environ.get("VERIF_SLOW", "inf")):
            print("SLOW %.1fs %s" % (elapsed, json.dumps({"labels": d.labels, "notes": d.notes, "choices": d.trace})), flush=True)
        for lab in set(d.labels):
            self.labels[lab] = self.labels.get(lab, 0) + 1
        if d.nontrivial:
            h = hashlib.sha1(json.dumps(d.trace).encode()).hexdigest()[:16]
            if h not in self.distinct:
                self.distinct.add(h)
                if len(self.samples) < 3:
                    self.samples.append({"labels": sorted(set(d.labels)), "notes": d.notes[:12],
                                         "choices": d.trace[:60]})


def prepare_repo():
    """import path and configuration for the code under test"""
    warnings.filterwarnings("ignore")
    sys.path.insert(0, REPO)
    import logging

    logging.disable(logging.CRITICAL)
    from yaocptool import config

    # the default linear solver (HSL ma27) is not available offline
    opts = config.SOLVER_OPTIONS["nlpsol_options"]
    opts["ipopt.linear_solver"] = "mumps"
    opts["ipopt.print_level"] = 0
    opts["print_time"] = False
    opts["ipopt.sb"] = "yes"
    import matplotlib

    matplotlib.use("Agg")


class OutOfTime(KeyboardInterrupt):
    """ends the exploration (an ordinary exception would count as a failure)"""


def run_family(fam, n_examples, seed, budget):
    """returns (stats, failure or None); failure = dict(trace, error, tb)"""
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings
    from hypothesis import strategies as st

    stats = Stats()
    best = {"len": None, "fail": None, "t_first": None, "n_after": 0}
    t0 = time.time()
    shrink_budget = float(os.environ.get("VERIF_SHRINK_S", "45"))

    def one(data):
        now = time.time()
        if best["t_first"] is None and now - t0 > budget:
            stats.skipped = max(1, n_examples - stats.evaluations)
            raise OutOfTime()
        if best["t_first"] is not None and now - best["t_first"] > shrink_budget:
            raise OutOfTime()
        d = Draw(data)
        try:
            fam.fn(d)
        except Discard:
            stats.discards += 1
            hypothesis.reject()
        except (KeyboardInterrupt, SystemExit, MemoryError):
            raise
        except Exception as e:  # noqa
            if type(e).__module__.startswith("hypothesis"):
                raise
            if gave_up(e):
                stats.discards += 1
                hypothesis.reject()
            if best["t_first"] is None:
                best["t_first"] = time.time()
            size = (len(d.trace), sum(abs(x) if isinstance(x, (int, float)) else 1 for x in d.trace))
            if best["len"] is None or size < best["len"]:
                best["len"] = size
                best["fail"] = {"family": fam.name, "choices": list(d.trace), "error": "%s: %s" % (type(e).__name__, short(e, 1500)),
                                "labels": d.labels, "notes": d.notes, "traceback": traceback.format_exc()[-3000:]}
            raise
        if best["t_first"] is None:
            stats.add(d, time.time() - now)

    test = hypothesis.given(st.data())(one)
    test = settings(max_examples=n_examples, database=None, deadline=None, derandomize=False,
                    suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                    phases=(Phase.generate, Phase.shrink), print_blob=False)(test)
    test = hypothesis.seed(seed)(test)
    try:
        test()
    except OutOfTime:
        pass
    except hypothesis.errors.Flaky as e:
        if best["fail"] is None:  # the outcome of an external solver (a discarded case) changed between two runs of one case
            print("exploration ended early: %s" % e)
            stats.skipped = max(1, n_examples - stats.evaluations)
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException as e:  # hypothesis re-raises; Flaky / ExceptionGroup included
        if best["fail"] is None:
            raise
    if best["fail"] is not None:
        f = best["fail"]
        # confirm outside hypothesis
        d = Draw(replay=f["choices"])
        try:
            fam.fn(d)
            f["reproduced_in_process"] = False
        except Exception as e:
            f["reproduced_in_process"] = not isinstance(e, Discard)
        return stats, f
    return stats, None
