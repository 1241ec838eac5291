"""C20: symbols survive transport between processes; time limits are honoured"""
import concurrent.futures
import gc
import os
import pickle
import select
import signal
import time

import casadi as ca
import gen
import multiprocessing as mp
import numpy as np
from yaocptool.util.serializer import CasadiPicklerDepickler
from core import Family, Violation, check, raises
from yaocptool.util import timeout

RULE = ("payloads: nested lists/dicts of generated SX/MX expressions and their symbols, pickled by the library's pickler, several pickles interleaved, loaded in any order, "
        "repeatedly, in this process, in forked processes and through a process pool; time limits: random histories of (nested, reused) contexts whose body ends, raises, "
        "overruns, or catches the interruption. Non-trivial: more than one pickle or more than one expression sharing symbols / a body that raises or overruns")


def in_child(fn, seconds=60):
    """runs fn() in a forked process (the code under test may crash it); returns its result"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                out = ("ok", fn())
            except Violation as e:
                out = ("violation", str(e))
            except BaseException as e:  # noqa
                out = ("error", repr(e)[:300])
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    end = time.time() + seconds
    while True:
        left = end - time.time()
        if left <= 0 or not select.select([r], [], [], left)[0]:
            os.kill(pid, signal.SIGKILL)
            break
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if not data:
        raise Violation("the process loading or dumping the symbols died (status %s)" % status)
    kind, val = pickle.loads(data)
    if kind == "violation":
        raise Violation(val)
    check(kind == "ok", "loading or dumping symbols failed", error=val)
    return val


# -- symbols -------------------------------------------------------------------------------------
class Payload:
    """symbols and expressions over them, arranged in a nested container; the loaded container is compared by value"""

    def __init__(self, d, pool):
        self.cls = d.choice([ca.SX, ca.SX, ca.MX])
        key = self.cls.__name__
        fresh = d.bool() or not pool.get(key)
        self.names = ["a", "b", "c"] if d.bool() else ["a", "a_1", "z"]
        if fresh:
            pool.setdefault(key, []).append((self.names, [self.cls.sym(n) for n in self.names]))
        self.names, self.syms = d.choice(pool[key])
        self.asts = []
        items = []
        for _ in range(d.int(1, 4)):
            k = d.weighted([(4, "expr"), (2, "sym"), (1, "vec"), (1, "const"), (1, "sparse"), (1, "empty"), (1, "repeat")])
            items.append(self.item(d, k, items))
        self.items = items
        self.shape = d.choice(["list", "dict", "nested", "tuple"])
        self.show = [str(i) for i in items]

    def item(self, d, k, items):
        env = dict(zip(self.names, self.syms))
        if k == "repeat" and items:
            return d.choice(items)
        if k == "sym":
            return d.choice(self.syms)
        if k == "vec":
            return ca.vertcat(*[gen.to_sx(gen.expr(d, self.names, 2), env) for _ in range(d.int(2, 4))]) if self.cls is ca.SX else ca.vertcat(*self.syms)
        if k == "const":
            return self.cls(ca.DM(d.vec(d.int(1, 3), -3, 3)))
        if k == "sparse":
            return ca.DM(ca.Sparsity.lower(2), [1.0, 2.0, 3.0]) * self.syms[0]
        if k == "empty":
            return self.cls(0, d.int(0, 1))
        e = gen.expr(d, self.names, 3)
        return gen.to_sx(e, env, self.cls)

    def obj(self):
        allv = [ca.vertcat(*self.syms)] if self.cls is ca.SX else list(self.syms)
        return {"list": lambda: [allv] + self.items, "tuple": lambda: (allv,) + tuple(self.items),
                "dict": lambda: {"s": allv, "i": {str(k): v for k, v in enumerate(self.items)}}, "nested": lambda: [allv, [self.items[:1], (self.items[1:],)]]}[self.shape]()

    def flat(self, o):
        if self.shape == "dict":
            return list(o["s"]), [o["i"][str(k)] for k in range(len(self.items))]
        if self.shape == "nested":
            return list(o[0]), list(o[1][0]) + list(o[1][1][0])
        return list(o[0]), list(o[1:])

    def compare(self, o, pt):
        want = type(self.obj())
        check(isinstance(o, want), "container type", got=type(o), expected=want)
        syms, items = self.flat(o)
        check(len(items) == len(self.items), "number of values", got=len(items), expected=len(self.items))
        got_names = [s.name() for v in syms for s in (v.elements() if self.cls is ca.SX else [v])]
        check(got_names == self.names, "names of the symbols", got=got_names, expected=self.names)
        for v in syms + items:
            check(isinstance(v, self.cls), "type of the value", got=type(v))
        for a, b in zip(items, self.items):
            check(a.shape == b.shape and a.sparsity() == b.sparsity(), "structure of the value", got=repr(a), expected=repr(b))
            try:
                f = ca.Function("f", syms, [a])
            except Exception:
                raise Violation("a value no longer depends on the symbols sent with it: %s (sent %s)" % (a, b))
            g = ca.Function("g", [ca.vertcat(*self.syms)] if self.cls is ca.SX else self.syms, [b])
            p = [ca.DM(pt)] if self.cls is ca.SX else list(pt)
            check(gen.close(np.array(f(*p)), np.array(g(*p)), 1e-13), "value after transport", got=str(a), sent=str(b))
            check(str(a) == str(b), "expression after transport", got=str(a), sent=str(b))


def dumps(o):
    return bytes(mp.reduction.ForkingPickler.dumps(o))


def fam_transport(d):
    pool = {}
    ps = [Payload(d, pool) for _ in range(d.int(1, 3))]
    pt = [d.num(0.25, 2) for _ in range(3)]
    order = [d.int(0, len(ps) - 1) for _ in range(d.int(1, 4))]
    mode = d.choice(["late", "interleaved", "elsewhere"])
    d.label(mode)
    d.note([p.show for p in ps])
    d.interesting(len(ps) > 1 or len(ps[0].items) > 1)

    def go():
        if mode == "interleaved":
            blobs = {}
            for i in order:
                blobs[i] = dumps(ps[i].obj())
                ps[i].compare(pickle.loads(blobs[i]), pt)
            for i in order:
                ps[i].compare(pickle.loads(blobs[i]), pt)
            return True
        blobs = [dumps(p.obj()) for p in ps]
        if mode == "elsewhere":
            # a process that never dumped these
            in_child(lambda: [ps[i].compare(pickle.loads(blobs[i]), pt) for i in order] and True)
        kept = []
        for i in order:
            o = pickle.loads(blobs[i])
            ps[i].compare(o, pt)
            kept.append((i, o))
        for i, o in kept:  # what was loaded earlier is still intact
            ps[i].compare(o, pt)
        gc.collect()
        return True

    in_child(go)


def fam_direct(d):
    """CasadiPicklerDepickler itself: many values in a row through one pair"""
    pool = {}
    p = Payload(d, pool)
    pt = [d.num(0.25, 2) for _ in range(3)]
    batches = d.int(1, 2)
    d.interesting(len(p.items) > 1)

    def go():
        for _ in range(batches):
            c = CasadiPicklerDepickler()
            vals = [ca.vertcat(*p.syms)] if p.cls is ca.SX else list(p.syms)
            n = len(vals)
            vals = vals + p.items
            if d_seq:
                out = [c.loads(c.dumps(v)) for v in vals]
            else:
                strs = [c.dumps(v) for v in vals]
                out = [c.loads(s) for s in strs]
            p.shape = "list"
            p.compare([out[:n]] + out[n:], pt)
        return True

    d_seq = d.bool()
    in_child(go)


def fam_pool(d):
    pool = {}
    ps = [Payload(d, pool) for _ in range(d.int(2, 4))]
    pt = [d.num(0.25, 2) for _ in range(3)]
    workers = d.int(1, 2)
    d.interesting()
    d.note([p.show for p in ps])

    def go():
        for p in ps:
            p.shape = d2
        try:
            with concurrent.futures.ProcessPoolExecutor(workers) as ex:
                futs = [ex.submit({"list": list, "tuple": tuple, "nested": list}[p.shape], p.obj()) for p in ps for _ in range(2)]
                outs = [f.result(timeout=50) for f in futs]
        except concurrent.futures.process.BrokenProcessPool:
            raise Violation("a worker died on the values sent to it")
        for i, o in enumerate(outs):
            ps[i // 2].compare(o, pt)
        return True

    d2 = d.choice(["list", "tuple", "nested"])
    in_child(go, 80)


# -- time limits ---------------------------------------------------------------------------------
class Custom(TimeoutError):
    pass


def overrun(seconds):
    """busy waits in small steps (interruptible) until the time is over"""
    end = time.monotonic() + seconds
    while time.monotonic() < end:
        time.sleep(0.01)
    return "finished"


def old_handler(signum, frame):
    pass


def pending():
    return signal.getitimer(signal.ITIMER_REAL)[0]


def clear():
    signal.alarm(0)
    signal.signal(signal.SIGALRM, old_handler)


def one_use(d, ctx, seconds, raise_exc, msg, kinds):
    k = d.choice(kinds)
    d.label(k)
    exc = None
    body_exc = {"value": ValueError("v"), "own timeout": TimeoutError("mine"), "custom timeout": Custom("mine"), "keyboard": KeyboardInterrupt(),
                "chained": RuntimeError("r")}.get(k)
    done = False
    t0 = time.monotonic()
    try:
        with ctx as inside:
            check(inside is ctx, "the context does not give itself")
            if k == "short":
                time.sleep(0.01)
            elif k == "chained":
                try:
                    raise KeyError("inner")
                except KeyError as e:
                    raise body_exc from e
            elif body_exc is not None:
                raise body_exc
            elif k == "overrun":
                overrun(seconds + 6)
            elif k == "caught":
                try:
                    overrun(seconds + 6)
                except TimeoutError:
                    pass
            elif k == "rewrapped":
                try:
                    overrun(seconds + 6)
                except TimeoutError as e:
                    raise RuntimeError("wrapped") from e
            elif k == "handler error":  # what goes wrong while the interruption is handled is another error
                try:
                    overrun(seconds + 6)
                except TimeoutError:
                    {}["missing"]
        done = True
    except BaseException as e:
        if isinstance(e, Violation):
            raise
        exc = e
    dt = time.monotonic() - t0
    check(pending() == 0, "an alarm is left behind", after=k)
    check(signal.getsignal(signal.SIGALRM) is old_handler, "the alarm handler is left behind", after=k)
    if k == "short":
        check(done and exc is None, "a body within its limit is interrupted", error=repr(exc))
        check(not ctx.timedout and ctx.timedout is not None, "a limit that did not fire reports", timedout=ctx.timedout)
    elif body_exc is not None:
        check(exc is body_exc, "an exception of the body is not let through", raised=repr(body_exc), got=repr(exc), raise_exc=raise_exc)
        check(not ctx.timedout, "a limit that did not fire says it did", raised=repr(body_exc))
    elif k == "handler error":
        check(isinstance(exc, KeyError), "an error raised while handling the interruption is not let through", got=repr(exc), raise_exc=raise_exc)
    else:
        check(seconds - 0.1 <= dt < seconds + 4, "time of the interruption", limit=seconds, elapsed=dt)
        check(ctx.timedout is True, "a limit that fired says it did not", got=ctx.timedout, body=k)
        if k == "caught":
            check(done and exc is None, "the body caught the interruption and finished", error=repr(exc))
        elif raise_exc:
            check(isinstance(exc, RuntimeError if k == "rewrapped" else TimeoutError), "overrunning code is not reported by an exception", got=repr(exc))
            if k == "overrun":
                check(msg in str(exc), "message of the interruption", got=str(exc), expected=msg)
        else:
            check(done and exc is None, "raise_exc=False raises", got=repr(exc))


def fam_limit(d):
    clear()
    seconds = 1
    raise_exc = d.bool()
    msg = d.choice(["Timeout", "too slow"])
    fast = ["short", "value", "own timeout", "custom timeout", "keyboard", "chained"]
    d.interesting()
    try:
        ctx = timeout(seconds=2, raise_exc=raise_exc, error_message=msg)
        for _ in range(d.int(1, 3)):
            if d.bool():
                ctx = timeout(seconds=2, raise_exc=raise_exc, error_message=msg)
            one_use(d, ctx, 2, raise_exc, msg, fast)
        if d.bool():
            ctx = timeout(seconds, raise_exc, msg)
            one_use(d, ctx, seconds, raise_exc, msg, ["overrun", "caught", "rewrapped", "handler error"])
            if d.bool():
                d.label("reused after firing")
                one_use(d, ctx, seconds, raise_exc, msg, fast)
    finally:
        clear()


def fam_nested(d):
    """limits inside limits, and inside code with an alarm of its own"""
    clear()
    hits = []

    def mine(signum, frame):
        hits.append(time.monotonic())

    kind = d.choice(["outer fires", "inner fires", "inner fires, then outer", "own alarm", "both short", "inner long"])
    d.label(kind)
    d.interesting()
    inner_exc = d.bool()
    try:
        if kind == "own alarm":
            signal.signal(signal.SIGALRM, mine)
            signal.alarm(2)
            t0 = time.monotonic()
            with timeout(d.int(3, 9)):
                time.sleep(0.02)
            check(signal.getsignal(signal.SIGALRM) is mine, "the handler of the caller is lost")
            while not hits and time.monotonic() - t0 < 6:
                time.sleep(0.02)
            check(hits and 1.0 <= hits[0] - t0 <= 5, "the alarm of the caller is lost or moved", hits=[h - t0 for h in hits])
            return
        if kind == "inner long":
            # what is left of the outer limit after a long inner block (limits are whole seconds: one second of rounding)
            own = d.bool()
            if own:
                signal.signal(signal.SIGALRM, mine)
            out, n = timeout(8, True, "outer"), d.int(1, 2)
            inn = timeout(20, inner_exc, "inner")
            t0 = time.monotonic()
            if own:
                signal.alarm(8)
            else:
                out.__enter__()
            for _ in range(n):
                t1 = time.monotonic()
                before = pending()
                with inn:
                    t2 = time.monotonic()
                    time.sleep(2.2 / n)
                    t3 = time.monotonic()
                left = pending()
                t4 = time.monotonic()
                check(left <= before - (t3 - t2) + 1.05, "an inner limit gives the outer one more time", before=before, inside=t3 - t2, left=left)
                check(left >= min(before - (t4 - t1) - 1.05, 0.5), "an inner limit takes time from the outer one", before=before, inside=t4 - t1, left=left)
            if own:
                check(signal.getsignal(signal.SIGALRM) is mine, "the handler of the caller is lost")
                signal.alarm(0)
            else:
                out.__exit__(None, None, None)
                check(pending() == 0 and signal.getsignal(signal.SIGALRM) is old_handler, "an alarm or handler is left behind")
            return
        out = timeout(1 if kind == "outer fires" else 3, True, "outer")
        inn = timeout(1 if kind.startswith("inner fires") else 9, inner_exc, "inner")
        t0 = time.monotonic()
        got = None
        try:
            with out:
                try:
                    with inn:
                        if kind.startswith("inner fires"):
                            overrun(8)
                except TimeoutError as e:
                    check("inner" in str(e), "which limit fired", got=str(e))
                    check(inner_exc, "raise_exc=False raises")
                check(bool(inn.timedout) == kind.startswith("inner fires"), "the inner limit reports", got=inn.timedout)
                if kind in ("outer fires", "inner fires, then outer"):
                    overrun(9)
        except TimeoutError as e:
            got = e
        dt = time.monotonic() - t0
        if kind in ("outer fires", "inner fires, then outer"):
            check(got is not None and "outer" in str(got), "the outer limit is not honoured", got=repr(got), elapsed=dt)
            check(out.seconds - 0.1 <= dt < out.seconds + 4, "time of the interruption", limit=out.seconds, elapsed=dt)
        else:
            check(got is None, "the outer limit fired", got=repr(got))
        check(bool(out.timedout) == (got is not None), "the outer limit reports", got=out.timedout)
        check(pending() == 0 and signal.getsignal(signal.SIGALRM) is old_handler, "an alarm or handler is left behind")
    finally:
        clear()


FAMILIES = [
    Family("transport", fam_transport, 200, 5000, shards=2, tshards=8),
    Family("direct", fam_direct, 100, 2000, shards=1, tshards=4),
    Family("pool", fam_pool, 25, 300, shards=1, tshards=4),
    Family("limit", fam_limit, 40, 600, shards=2, tshards=8),
    Family("nested", fam_nested, 20, 200, shards=2, tshards=8),
]
