"""C06: solving an optimization problem returns its constrained minimiser"""
import itertools
import math

import casadi as ca
import gen
import numpy as np
import yaocptool.config as config
from core import Family, check, raises
from yaocptool.optimization import NonlinearOptimizationProblem, QuadraticOptimizationProblem

RULE = ("random strictly convex quadratic programs with parameters, bounds and linear (in)equalities, feasible by construction; histories of solve / "
        "solve with other parameters / other call bounds / extend / change objective. Oracle: exhaustive active-set enumeration plus KKT stationarity of the "
        "returned multipliers. Non-trivial: at least one constraint or bound active at the optimum, or a re-solve after a change")
INF = math.inf


def qp_min(Q, c, A, lo, hi):
    """min 1/2 x'Qx + c'x  s.t. lo <= A x <= hi, by enumeration of active sets"""
    n = len(c)
    eq = [i for i in range(len(lo)) if lo[i] == hi[i]]
    ineq = [i for i in range(len(lo)) if lo[i] != hi[i] and (math.isfinite(lo[i]) or math.isfinite(hi[i]))]
    best = None
    cand = []
    for i in ineq:
        if math.isfinite(lo[i]):
            cand.append((i, lo[i]))
        if math.isfinite(hi[i]):
            cand.append((i, hi[i]))
    for k in range(0, n + 1):
        for comb in itertools.combinations(cand, k):
            rows = [(i, lo[i]) for i in eq] + list(comb)
            if len({i for i, _ in rows}) != len(rows):
                continue
            m = len(rows)
            K = np.zeros((n + m, n + m))
            K[:n, :n] = Q
            r = np.zeros(n + m)
            r[:n] = -c
            for j, (i, b) in enumerate(rows):
                K[n + j, :n] = A[i]
                K[:n, n + j] = A[i]
                r[n + j] = b
            sol = np.linalg.lstsq(K, r, rcond=None)[0]
            if np.max(np.abs(K @ sol - r)) > 1e-8:
                continue
            x = sol[:n]
            ax = A @ x if len(A) else np.zeros(0)
            if np.any(ax < np.array(lo) - 1e-8) or np.any(ax > np.array(hi) + 1e-8):
                continue
            f = 0.5 * x @ Q @ x + c @ x
            if best is None or f < best[0] - 1e-12:
                best = (f, x, k)
    return best


class Prog:
    def __init__(self, d):
        self.d = d
        self.quad = d.bool()
        if self.quad:
            self.pb = QuadraticOptimizationProblem(name="qp", solver_options={"printLevel": "none"})
        else:
            self.pb = NonlinearOptimizationProblem(name="nlp")
        self.x, self.p = [], []
        self.xs = []  # interior point
        self.lo, self.hi = [], []
        self.A, self.Ap, self.glo, self.ghi = [], [], [], []
        self.Q = np.zeros((0, 0))
        self.c = np.zeros(0)
        self.Cp = np.zeros((0, 0))
        self.k = 0

    def add_vars(self, n):
        d = self.d
        st = np.array(d.vec(n, -2, 2, 0.25))
        lo, hi = [], []
        for v in st:
            lo.append(v - d.choice([0.25, 1.0, 3.0]) if d.bool() else -INF)
            hi.append(v + d.choice([0.25, 1.0, 3.0]) if d.bool() else INF)
        v = self.pb.create_variable("x%d" % self.k, n, lb=ca.DM(lo), ub=ca.DM(hi))
        self.k += 1
        self.x += [v[i] for i in range(n)]
        self.xs += list(st)
        self.lo += lo
        self.hi += hi
        for r in range(len(self.A)):
            self.A[r] = np.concatenate([self.A[r], np.zeros(n)])
        self.objective()

    def add_par(self, n):
        v = self.pb.create_parameter("p%d" % self.k, n)
        self.k += 1
        self.p += [v[i] for i in range(n)]
        for r in range(len(self.Ap)):
            self.Ap[r] = np.concatenate([self.Ap[r], np.zeros(n)])
        self.objective()

    def objective(self):
        d = self.d
        n, m = len(self.x), len(self.p)
        L = np.array([[d.num(-1, 1, 0.5) if j < i else 0.0 for j in range(n)] for i in range(n)]).reshape(n, n)
        for i in range(n):
            L[i, i] = d.choice([1.0, 1.5, 2.0])
        self.Q = L @ L.T
        self.c = np.array(d.vec(n, -3, 3, 0.5))
        self.Cp = np.array([d.vec(m, -1, 1, 0.5) for _ in range(n)]).reshape(n, m)
        x, p = ca.vertcat(*self.x), ca.vertcat(*self.p)
        lin = ca.MX(ca.DM(self.c))
        if m:
            lin = lin + ca.mtimes(ca.DM(self.Cp), p)
        self.pb.set_objective(0.5 * ca.mtimes([x.T, ca.DM(self.Q), x]) + ca.dot(lin, x))

    def add_con(self):
        d = self.d
        n, m = len(self.x), len(self.p)
        a = np.array(d.vec(n, -1, 1, 0.5))
        if not a.any():
            a[0] = 1.0
        ap = np.array(d.vec(m, -0.5, 0.5, 0.25)) if d.bool() else np.zeros(m)
        v = float(a @ np.array(self.xs))
        e = ca.dot(ca.DM(a), ca.vertcat(*self.x))
        if m and ap.any():
            e = e + ca.dot(ca.DM(ap), ca.vertcat(*self.p))
        else:
            ap = np.zeros(m)
        slack = d.choice([2.0, 3.0, 4.0])  # |p| <= 1 keeps the interior point feasible
        kind = d.int(0, 4)
        n_eq = sum(1 for l, h in zip(self.glo, self.ghi) if l == h)
        if kind == 0 and n_eq == 0 and n > 1 and not ap.any() and not any(a == b for a, b in zip(self.lo, self.hi)):
            lo = hi = v
            self.pb.include_equality(e, v) if d.bool() else self.pb.include_constraint(e == v)
        elif kind <= 1:
            lo, hi = -INF, v + slack
            self.pb.include_constraint(e <= hi) if d.bool() else self.pb.include_inequality(e, ub=hi)
        elif kind == 2:
            lo, hi = v - slack, INF
            self.pb.include_constraint(e >= lo) if d.bool() else self.pb.include_inequality(e, lb=lo)
        else:
            lo, hi = v - slack, v + slack
            self.pb.include_inequality(e, lb=lo, ub=hi)
        self.A.append(a)
        self.Ap.append(ap)
        self.glo.append(lo)
        self.ghi.append(hi)

    def solve(self):
        d = self.d
        n, m = len(self.x), len(self.p)
        pv = np.array(d.vec(m, -1, 1, 0.5))
        lo, hi, glo, ghi = list(self.lo), list(self.hi), list(self.glo), list(self.ghi)
        kw = {}
        if d.int(0, 2) == 0:
            # other bounds for this call only (wider, so still feasible)
            lo = [l - d.choice([0.0, 0.5]) for l in lo]
            hi = [h + d.choice([0.0, 0.5]) for h in hi]
            cd = self.pb.get_default_call_dict()
            cd = dict(cd)
            cd["lbx"], cd["ubx"] = ca.DM(lo), ca.DM(hi)
            kw["call_dict"] = cd
            d.label("call bounds")
        x0 = gen.dmv(self.xs if d.bool() else np.zeros(n))
        cd_before = {k: gen.arr(v).copy() for k, v in kw["call_dict"].items()} if kw else None
        if m:
            kw["p"] = gen.dmv(pv) if d.bool() else [float(q) for q in pv] if m == 1 else gen.dmv(pv)
            if isinstance(kw["p"], list):
                kw["p"] = ca.DM(kw["p"])
        if self.last is not None and self.last["x"].numel() == n and self.last["lam_g"].numel() == len(self.A) and d.bool():
            kw["lam_x"], kw["lam_g"] = self.last["lam_x"], self.last["lam_g"]
            d.label("warm start")
        r = self.pb.solve(x0, **kw)
        if cd_before is not None:
            check(set(kw["call_dict"]) == set(cd_before) and all(gen.close(gen.arr(kw["call_dict"][k]), v) for k, v in cd_before.items()), "solve changed the caller's call_dict")
        self.last = r
        A = np.vstack([np.eye(n)] + ([np.array(self.A)] if self.A else []))
        shift = [float(ap @ pv) for ap in self.Ap]
        L = lo + [l - s for l, s in zip(glo, shift)]
        H = hi + [h - s for h, s in zip(ghi, shift)]
        c = self.c + (self.Cp @ pv if m else 0)
        ref = qp_min(self.Q, c, A, L, H)
        assert ref is not None, "harness: reference found no solution"
        x = gen.arr(r["x"])
        tol = 2e-5
        check(x.size == n, "size of the solution")
        check(gen.close(x, ref[1], 10 * tol), "solution is not the minimiser", got=x, expected=ref[1], quadratic=self.quad, Q=self.Q, c=c, A=A, lo=L, hi=H)
        check(gen.close(gen.arr(r["f"]), [ref[0]], tol), "objective value is not the minimum", got=r["f"], expected=ref[0])
        g = np.array([a @ x + s for a, s in zip(self.A, shift)])
        if len(g):
            check(gen.close(gen.arr(r["g"]), g, tol), "reported constraint values are not those at the solution", got=r["g"], expected=g)
            lam_g = gen.arr(r["lam_g"])
        else:
            lam_g = np.zeros(0)
        st = self.Q @ x + c + gen.arr(r["lam_x"]) + (np.array(self.A).T @ lam_g if self.A else 0)
        check(np.max(np.abs(st)) < 1e-3, "returned multipliers do not satisfy stationarity", residual=st)
        check("stats" in r and bool(r["stats"].get("success", True)), "solver statistics")
        if ref[2] > 0:
            d.interesting()
            d.label("active constraints")
        return x

    last = None


def solve(d):
    q = Prog(d)
    q.add_vars(d.int(1, 3))
    if d.bool():
        q.add_par(d.int(1, 2))
    # qpOASES (outside the repository) ignores variable bounds when a program has no constraint rows at all
    for _ in range(d.int(1 if q.quad else 0, 3)):
        q.add_con()
    d.label("qpoases" if q.quad else "ipopt")
    q.solve()
    for _ in range(d.int(0, 3)):
        k = d.int(0, 4)
        if k == 0:
            q.add_con()
            d.label("extended")
            d.interesting()
        elif k == 1:
            q.objective()
            d.label("new objective")
            d.interesting()
        elif k == 2 and len(q.x) < 3:
            q.add_vars(1)
            d.label("new variable")
            d.interesting()
        elif k == 3 and len(q.p) < 2:
            q.add_par(1)
            d.label("new parameter")
            d.interesting()
        q.solve()
    m = len(q.p)
    check(raises(lambda: q.pb.solve(gen.dmv(q.xs), p=ca.DM.zeros(m + 1))), "a parameter vector of the wrong size must be refused")
    if m:
        check(raises(lambda: q.pb.solve(gen.dmv(q.xs))), "a missing parameter vector must be refused")


def independent(d):
    """two problem objects alive at the same time do not influence one another (options included)"""
    a, b = Prog(d), Prog(d)
    for q in (a, b):
        q.add_vars(d.int(1, 2))
        q.add_con()
    d.interesting()
    for _ in range(d.int(2, 4)):
        q = d.choice([a, b])
        if d.bool():
            q.add_con()
        q.solve()


def options(d):
    """the solver options given to a problem are the ones it is solved with, and they stay with that problem"""
    base = {"ipopt.linear_solver": "mumps", "ipopt.print_level": 0, "print_time": False, "ipopt.sb": "yes"}
    k = d.int(0, 2)
    given = dict(base, **{"ipopt.max_iter": k})
    before = dict(given)
    snapshot = dict(config.SOLVER_OPTIONS["nlpsol_options"])
    n = d.int(1, 3)
    w = np.array(d.vec(n, 0.5, 2, 0.25))
    c = np.array(d.vec(n, 1, 2, 0.25))

    def fill(pb):
        x = pb.create_variable("x", n)
        # (exp(x)-x*(1+c)) is strictly convex with minimum at log(1+c); far guess: several Newton steps
        pb.set_objective(sum(w[i] * (ca.exp(x[i]) - (1 + c[i]) * x[i]) for i in range(n)))
        return pb

    limited_first = d.bool()
    style = d.int(0, 1)

    def limited():
        if style == 0:
            return fill(NonlinearOptimizationProblem(name="lim", solver_options=given))
        q = NonlinearOptimizationProblem(name="lim")
        q.solver_options["ipopt.max_iter"] = k
        d.label("options edited")
        return fill(q)

    if limited_first:
        lim = limited()
        free = fill(NonlinearOptimizationProblem(name="free"))
    else:
        free = fill(NonlinearOptimizationProblem(name="free"))
        lim = limited()
    d.interesting()
    for which in d.perm(["lim", "free", "lim", "free"]):
        if which == "lim":
            r = lim.solve(ca.DM([4.0] * n))
            check(r["stats"]["iter_count"] <= k and not r["stats"]["success"], "iteration limit given in the solver options not respected", limit=k, stats=r["stats"]["iter_count"])
        else:
            r = free.solve(ca.DM([4.0] * n))
            check(r["stats"]["success"] and gen.close(gen.arr(r["x"]), np.log(1 + c), 1e-5), "a problem without own options must be solved", got=r["x"], expected=np.log(1 + c))
    check(given == before, "the option dictionary given by the user was changed", got=given, expected=before)
    check(config.SOLVER_OPTIONS["nlpsol_options"] == snapshot, "the default options were changed by a problem")


FAMILIES = [Family("solve", solve, 5000, 30000, shards=8, tshards=8), Family("independent", independent, 1000, 6000, shards=4), Family("options", options, 300, 3000, shards=2)]
