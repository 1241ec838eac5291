"""C19: the closed loop applies each control once and keeps a faithful record"""
import contextlib
import io
import math

import casadi as ca
import gen
import numpy as np
import ocpgen
from core import Family, check, raises
from yaocptool.mpc import MPC, PlantSimulation

RULE = ("plant: random DAE models, measurement matrices, sampling patterns and histories of set_control / set_control_function / get_measurement / refused controls, against an "
        "independent integration of each interval; loop: linear-quadratic problems, every step's control compared with an independent solution of the problem for the measured "
        "state. Non-trivial: at least two intervals, or a refused control")


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


class Rec:
    """reference record of the plant"""

    def __init__(self, sy, x0, t0, u0, p, th, C, points, ts):
        self.sy, self.x, self.t, self.u, self.p, self.th, self.C, self.points, self.ts = sy, x0, t0, u0, p, th, C, points, ts
        self.log = [(t0, x0, self.y(), u0)]
        self.meas = [(t0, self.m())]

    def y(self):
        return self.sy.yval(self.t, self.x, self.u, self.p, self.th)

    def m(self):
        return self.C @ np.concatenate([self.x, self.y()])

    def advance(self, ufun):
        start = self.t
        for q in self.points:
            tf = start + q * self.ts
            self.u = np.asarray(ufun(self.t), float)
            self.x = self.sy.solve(self.x, self.t, tf, self.u, self.p, self.th)
            self.t = tf
            self.log.append((tf, self.x, self.y(), self.u))
        self.meas.append((self.t, self.m()))


def compare(pl, r, tol=2e-4):
    t, m, u = pl.get_measurement()
    check(gen.close([t], [r.t], 1e-9), "time of the measurement", got=t, expected=r.t)
    check(gen.close(gen.arr(m), r.meas[-1][1], tol), "measurement", t=t, got=m, expected=r.meas[-1][1])
    check(gen.close(gen.arr(ca.DM(u)) if r.u.size else [], r.u, 1e-4), "control of the measurement", got=u, expected=r.u)
    check(gen.close(gen.arr(pl.x), r.x, tol) and gen.close([pl.t], [r.t], 1e-9), "state of the plant", t=pl.t, got=pl.x, expected=r.x)


def compare_record(pl, r, tol=2e-4):
    for e in "xyu":
        if r.sy.n[e]:
            got, exp = list(pl.dataset.get_entry_names(e)), [q.name() for q in ca.vertsplit(getattr(pl.model, e))]
            check(got == exp, "names in the record", entry=e, got=got, expected=exp)
    for e, k in (("x", 1), ("y", 2), ("u", 3)):
        n = len(r.log[0][k])
        if not n:
            continue
        t, v = pl.dataset.get_entry(e)
        check(t.numel() == len(r.log) and gen.close(gen.arr(t), [q[0] for q in r.log], 1e-9), "times in the record", entry=e, got=t, expected=[q[0] for q in r.log])
        check(gen.close(gen.mat(v), np.array([q[k] for q in r.log]).T, tol), "values in the record", entry=e, got=v, expected=np.array([q[k] for q in r.log]).T)
    for e in ("meas", "meas_wo_noise"):
        t, v = pl.dataset.get_entry(e)
        check(t.numel() == len(r.meas) and gen.close(gen.arr(t), [q[0] for q in r.meas], 1e-9), "times of the measurements in the record", entry=e, got=t)
        check(gen.close(gen.mat(v), np.array([q[1] for q in r.meas]).T, tol), "measurements in the record", entry=e, got=v, expected=np.array([q[1] for q in r.meas]).T)


def make_plant(d, sy, x0, u0, p, th, ts, t0, measure_x=False, ufun=None):
    m, _ = sy.build("plant")
    n = sy.n["x"] + sy.n["y"]
    C = None
    if d.bool():
        if measure_x:  # the controller needs the states first
            C = np.vstack([np.eye(sy.n["x"], n), np.array([[d.num(-1, 1, 0.5) for _ in range(n)] for _ in range(d.int(0, 1))]).reshape(-1, n)])
        else:
            C = np.array([[d.num(-1, 1, 0.5) for _ in range(n)] for _ in range(d.int(1, 3))])
    k = d.int(0, 2)
    points = [1.0]
    kw = {}
    if k == 1:
        s = d.int(1, 3)
        points = [(i + 1) / s for i in range(s)]
        kw["super_samling"] = s
    elif k == 2:
        points = d.choice([[0.25, 1.0], [0.5, 0.75, 1.0]])
        kw["super_samling"] = list(points)
    if C is not None:
        kw["c_matrix"] = ca.DM(C)
    if ufun is not None:
        kw["u_function"] = ufun
    r = Rec(sy, x0, t0, u0, p, th, C if C is not None else np.eye(n), points, ts)
    pl = PlantSimulation(m, x_0=gen.dmv(x0), u_0=gen.dmv(u0), y_guess=gen.dmv(r.y()), t_0=t0, t_s=ts, verbosity=0, **kw)
    if sy.n["p"]:
        pl.p = gen.dmv(p)
    if sy.n["theta"]:
        pl.theta = {0: gen.dmv(th)}
    return pl, r


def fam_plant(d):
    sy = gen.Sys(d, max_x=2, max_y=2, min_u=1, max_u=2)
    n = sy.n
    x0, u0, p, th = (sy.vals(d, k) for k in ("x", "u", "p", "theta"))
    ts, t0 = d.choice([0.25, 0.5, 1.0]), d.choice([0.0, 0.0, 1.5, -1.0])
    pl, r = make_plant(d, sy, x0, u0, p, th, ts, t0)
    compare(pl, r)
    steps = d.int(1, 4)
    d.interesting(steps > 1)
    for _ in range(steps):
        k = d.weighted([(4, "set"), (2, "function"), (1, "look"), (1, "refused")])
        d.label(k)
        if k == "look":
            for _ in range(2):
                compare(pl, r)
            continue
        if k == "refused":
            bad = [1.0] * (n["u"] + d.choice([1, -1] if n["u"] > 1 else [1]))
            check(raises(lambda: pl.set_control(bad)), "a control of the wrong size is accepted", size=len(bad), n_u=n["u"])
            compare(pl, r)
            d.interesting()
            continue
        u = sy.vals(d, "u")
        if k == "set":
            form = d.choice(["dm", "list"] + (["float"] if n["u"] == 1 else []))
            arg = {"dm": lambda: gen.dmv(u), "list": lambda: [float(v) for v in u], "float": lambda: float(u[0])}[form]()
            pl.set_control(arg)
            r.advance(lambda t: u)
        else:
            a, b = u, sy.vals(d, "u")
            t = ca.SX.sym("t")
            f = ca.Function("uf", [t], [ca.DM(a) + ca.DM(b) * (t - t0)])
            pl.set_control_function(f)
            r.advance(lambda s: a + b * (s - t0))
        compare(pl, r)
    compare_record(pl, r)


def fam_noise(d):
    """with noise the record is still the model's response, up to disturbances of the declared covariance"""
    sy = gen.Sys(d, max_x=2, max_y=1, min_u=1, max_u=1)
    n = sy.n
    x0, u0, p, th = (sy.vals(d, k) for k in ("x", "u", "p", "theta"))
    ts, t0 = d.choice([0.25, 0.5]), d.choice([0.0, 1.5])
    pl, r = make_plant(d, sy, x0, u0, p, th, ts, t0)
    np.random.seed(d.int(0, 10 ** 6))
    nm = r.C.shape[0]

    def column(k):  # noise of rank one (or none): every disturbance is a multiple of it
        return np.array([d.num(-0.5, 0.5, 0.25) for _ in range(k)])

    v, w = column(n["x"]), column(nm)
    pl.r_v, pl.r_n = ca.DM(np.outer(v, v)), ca.DM(np.outer(w, w))
    pl.has_noise = True
    steps = d.int(2, 4)

    def multiple(e, c, tol, what):
        """e is a plausible multiple of c"""
        k = float(e @ c) / max(float(c @ c), 1e-30)
        check(np.max(np.abs(e - k * c)) < tol and abs(k) < 8, what, disturbance=e, column=c)
        return k

    ks = []
    for _ in range(steps):
        u = sy.vals(d, "u")
        a = len(gen.arr(pl.dataset.get_entry("x")[0]))
        pl.set_control(gen.dmv(u))
        t, x = [np.array(gen.mat(q)) for q in pl.dataset.get_entry("x")]
        t = t.reshape(-1)
        check(len(t) == a + len(r.points), "number of recorded states", got=len(t), expected=a + len(r.points))
        for i in range(a, len(t)):
            tf = r.t + r.points[i - a] * ts
            check(gen.close([t[i]], [tf], 1e-9), "time of the record", got=t[i], expected=tf)
            xe = sy.solve(x[:, i - 1], t[i - 1], t[i], u, p, th)
            ks.append(multiple(x[:, i] - xe, v, 2e-4, "recorded states do not follow from the former ones with the process noise"))
        r.t = t[-1]
        check(gen.close(gen.arr(pl.x), x[:, -1], 1e-9), "the state of the plant is the recorded one", got=pl.x, expected=x[:, -1])
        y = gen.mat(pl.dataset.get_entry("y")[1])[:, -1] if n["y"] else np.zeros(0)
        m0, m = gen.mat(pl.dataset.get_entry("meas_wo_noise")[1])[:, -1], gen.mat(pl.dataset.get_entry("meas")[1])[:, -1]
        check(gen.close(m0, r.C @ np.concatenate([x[:, -1], y]), 1e-6), "measurement without noise", got=m0)
        ks.append(multiple(m - m0, w, 1e-6, "the measurement noise is not of the declared covariance"))
        tm, mm, uu = pl.get_measurement()
        check(gen.close(gen.arr(mm), m, 1e-9) and gen.close([tm], [r.t], 1e-9) and gen.close(gen.arr(uu), u, 1e-9), "the measurement is the recorded one", got=(tm, mm, uu), expected=(r.t, m, u))
    if np.any(v) and np.any(w):
        check(np.min(np.abs(ks)) > 1e-7 or np.sum(np.abs(ks) < 1e-3) < 3, "noise is switched on but a disturbance is missing", multiples=ks)
    d.label("rank %d %d" % (int(np.any(v)), int(np.any(w))))
    d.interesting(bool(np.any(v) or np.any(w)))


class Stop(Exception):
    pass


class Estimator:
    """an estimator whose estimate depends on everything it is given (and shows the states in another order)"""

    def __init__(self, d, r, t0):
        n, self.nx = r.C.shape[0], r.sy.n["x"]
        self.t_s, self.t, self.t0 = r.ts, t0, t0
        self.E = np.eye(self.nx, n) + np.array([[d.num(-0.5, 0.5, 0.25) for _ in range(n)] for _ in range(self.nx)])
        self.F = np.array([[d.num(-0.25, 0.25, 0.125) for _ in range(r.sy.n["u"])] for _ in range(self.nx)])
        self.c = np.array(d.vec(self.nx, -0.25, 0.25))
        self.perm = d.perm(list(range(self.nx)))
        self.calls = []

    def value(self, t, m, u):
        return self.E @ m + self.F @ u + self.c * (t - self.t0)

    def cov(self, t, m):
        return np.diag(np.arange(1.0, self.nx + 1)) * 0.125 + 0.0625 * np.tanh(m[0]) * np.ones((self.nx, self.nx))

    def estimate(self, t_k, y_k, u_k):
        m, u = gen.arr(y_k), gen.arr(ca.DM(u_k))
        self.calls.append((float(t_k), m, u))
        x = self.value(float(t_k), m, u)
        return gen.dmv(x[self.perm]), ca.DM(self.cov(float(t_k), m))

    def order(self, x):
        """the estimate (and cost state) in the order of the problem"""
        inv = [self.perm.index(i) for i in range(self.nx)]
        return ca.vertcat(x[inv], x[self.nx:])


def fam_loop(d):
    o = ocpgen.LQ(d, cons=False, opts=False, max_el=3, max_deg=3, max_x=2, max_u=1 if d.bool() else 2)
    o.prepare()
    o.x_lo[:], o.x_hi[:], o.y_lo[:], o.y_hi[:] = -math.inf, math.inf, -math.inf, math.inf
    if o.delta and o.last_u is None:
        o.last_u = o.sy.vals(d, "u")
    o.build()
    if o.delta:
        o.last_in_problem = False
    sy = o.sy
    kw = {"initial_guess_heuristic": d.choice(["simulation", "problem_info"])}
    if not o.col:
        kw["integrator_type"] = "collocation" if o.yn else d.choice(["collocation", "rk"])
    meth = o.method(**kw)
    u0 = np.array(o.last_u) if o.last_u is not None else sy.vals(d, "u")
    ts = o.dt if o.dc > 1 else d.choice([o.dt, 0.25, 0.5])
    # the plant lives in its own time; the problem is solved on its own interval every step
    t0 = d.choice([0.0, 0.0, 2.0])
    p, th = o.pv(o.P), o.thv(o.TH[0])
    pl, r = make_plant(d, sy, np.array(o.x0), u0, p, th, ts, t0, measure_x=True)
    args = dict(verbosity=0, include_cost_in_state_vector=True)
    if o.pn:
        args["p"] = o.p_arg(o.P)
    if o.thn:
        args["theta"] = o.th_arg(o.TH)
    est, means, covs = None, [], []
    if d.int(0, 2) == 0:
        est = Estimator(d, r, t0)
        args.update(estimator=est, state_rearrangement_function=est.order)
        free = [q for q in o.pn if q not in o.popt]
        if free and d.int(0, 3):
            means = [(d.int(0, sy.n["x"] - 1), o.pn.index(d.choice(free)))]
            args.update(mean_as_parameter=True, mean_p_indices=list(means))
        if free and d.int(0, 3):
            covs = [(d.int(0, sy.n["x"] ** 2 - 1), o.pn.index(d.choice(free)))]
            args.update(covariance_as_parameter=True, cov_p_indices=list(covs))
        d.label("estimator%s%s" % (" mean" * bool(means), " cov" * bool(covs)))
    mpc = MPC(pl, meth, **args)
    applied = []  # what the plant was told, in order
    d.label(o.scheme + (" dc>1" if o.dc > 1 else "") + (" moves" if o.delta else ""))
    d.note(o.describe())
    n_it = 0

    def expected(x, last):
        P = dict(o.P)
        if est is not None:
            m = r.C @ np.concatenate([r.x, r.y()])
            t = r.t
            x, cv = est.value(t, m, r.u), est.cov(t, m)
            for i, j in means:
                P[o.pn[j]] = x[est.perm][i]
            for i, j in covs:
                P[o.pn[j]] = cv.T.reshape(-1)[i]
            k = len(seen)
            check(len(est.calls) > k, "the estimator was not asked", calls=len(est.calls), iteration=k)
            tc, mc, uc = est.calls[k]
            check(gen.close([tc], [t], 1e-9) and gen.close(mc, m, 5e-3) and gen.close(uc, r.u, 5e-3), "what the estimator was given", got=(tc, mc, uc), expected=(t, m, r.u))
            seen.append(k)
        ref = o.reference(x0=x, last_u=last if o.delta else None, P=P)
        if not ref["ok"]:
            return None
        return ref["u"][:, : o.dc]

    seen = []
    phases = d.int(1, 3)
    for _ in range(phases):
        k = d.weighted([(4, "run"), (1, "fixed"), (1, "fixed+estimator"), (1, "run forever")])
        n = d.int(1, 2)
        d.label(k)
        d.interesting(n > 1 or phases > 1)
        if k.startswith("fixed"):
            u = sy.vals(d, "u")
            arg = d.choice([gen.dmv, list])([float(v) for v in u])
            quiet(mpc.run_fixed_control if k == "fixed" else mpc.run_fixed_control_with_estimator, arg, n)
            for _ in range(n):
                r.advance(lambda t: u)
                if k != "fixed":
                    seen.append(0)
            n_it += n
            compare(pl, r)
            continue
        # every step in turn: the measured state, its control, the applied control
        if k == "run forever":
            left = [n]
            orig = pl.get_measurement

            def limited():
                if left[0] == 0:
                    raise Stop()
                left[0] -= 1
                return orig()

            pl.get_measurement = limited
            try:
                check(raises(lambda: quiet(mpc.run), Stop), "run() without a number of iterations stops by itself")
            finally:
                del pl.get_measurement
            n_it += n + 1
        else:
            quiet(mpc.run, n)
            n_it += n
        for _ in range(n):
            u = expected(r.x, r.u)
            if u is None:
                d.label("reference failed")
                return
            ta = r.t
            if o.dc == 1:
                r.advance(lambda t: u[:, 0])
            else:
                r.advance(lambda t: ocpgen.lagrange(ocpgen.radau(o.dc), (t - ta) / ts) @ u.T)
        compare_loop(pl, r)
    if est is not None:
        check(len(est.calls) == len(seen), "number of estimates", got=len(est.calls), expected=len(seen))
    check(mpc.iteration == n_it, "number of iterations", got=mpc.iteration, expected=n_it)
    compare_loop(pl, r, True)


def compare_loop(pl, r, record=False):
    # the controls come from an interior point method: compare loosely, then follow the plant's own record exactly
    t, v = pl.dataset.get_entry("u")
    exp = np.array([q[3] for q in r.log]).T
    got = gen.mat(v)
    check(got.shape == exp.shape, "number of recorded controls", got=got.shape, expected=exp.shape)
    check(gen.close(got, exp, 5e-3), "applied controls are not the first controls of the optimal solutions", got=got, expected=exp)
    # the record is the model's response to the recorded controls
    tx, x = pl.dataset.get_entry("x")
    x, ts = gen.mat(x), gen.arr(tx)
    check(gen.close(ts, [q[0] for q in r.log], 1e-9), "times of the record", got=ts, expected=[q[0] for q in r.log])
    for k in range(1, len(r.log)):
        xe = r.sy.solve(x[:, k - 1], ts[k - 1], ts[k], got[:, k], r.p, r.th)
        check(gen.close(x[:, k], xe, 2e-4), "the recorded states do not follow from the recorded controls", t=ts[k], got=x[:, k], expected=xe)
    r.x, r.u = x[:, -1], got[:, -1]
    r.log = [(q[0], x[:, i], q[2], got[:, i]) for i, q in enumerate(r.log)]
    tm, m = pl.dataset.get_entry("meas")
    check(gen.close(gen.arr(tm), [q[0] for q in r.meas], 1e-9), "times of the measurements", got=tm)
    i = [int(np.argmin(np.abs(ts - t))) for t in gen.arr(tm)]
    if r.sy.n["y"] == 0:
        check(gen.close(gen.mat(m), r.C @ x[:, i], 1e-6), "recorded measurements", got=m, expected=r.C @ x[:, i])


FAMILIES = [
    Family("plant", fam_plant, 120, 3000, shards=4, tshards=8, budget=120),
    Family("noise", fam_noise, 80, 2000, shards=2, tshards=8, budget=120),
    Family("loop", fam_loop, 300, 1200, shards=8, tshards=8, budget=200),
]
