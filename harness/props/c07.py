"""C07: the discretized program is the optimal control problem on the grid"""
import math

import casadi as ca
import gen
import numpy as np
import ocpgen
from core import Discard, Family, check, raises

RULE = ("random optimal control problems (index-1 DAE dynamics, integral/final/element costs, path (in)equalities at start/end/collocation points, initial, final "
        "and parameter equalities, bounds, control-move bounds, optimization parameters and thetas) x scheme x degrees x elements x t_0. Oracle: an independent "
        "Radau-IIA / shooting transcription in numpy: feasibility verdict, objective value at feasible points, tangent space of the equality constraints, bounds "
        "per decision variable. Non-trivial: at least one element with control or constraint, i.e. every built problem with u, constraints or optimization "
        "parameters")


class Captured(Exception):
    pass


def capture(meth, **kw):
    """the parameter vector a solve call hands to the program"""
    box = {}

    def grab(*a, **k):
        box.update(k)
        raise Captured

    meth.opt_problem.solve = grab
    try:
        meth.call_solver(**kw)
    except Captured:
        pass
    finally:
        del meth.opt_problem.solve
    return box


class Program:
    def __init__(self, o, meth):
        self.o, self.meth = o, meth
        meth.create_optimization_problem()
        q = meth.opt_problem
        o.layout(meth)
        self.F = ca.Function("F", [q.x, q.p], [q.f, q.g])
        self.q = q
        self.glb, self.gub = gen.arr(q.g_lb), gen.arr(q.g_ub)
        self.lb, self.ub = gen.arr(q.x_lb), gen.arr(q.x_ub)

    def par(self, P, TH, x0, last_u, junk=0.0):
        o = self.o
        P = dict(P)
        TH = [dict(T) for T in TH]
        for n in o.popt:
            P[n] = junk
        for T in TH:
            for n in o.thopt:
                T[n] = junk
        z0 = np.zeros(len(o.order))
        for k, i in enumerate(o.order[:-1]):
            z0[i] = x0[k]
        kw = dict(initial_guess=ca.DM.zeros(o.nv), x_0=gen.dmv(z0), theta=o.th_arg(TH), p=o.p_arg(P))
        if last_u is not None and not (o.last_in_problem and last_u is o.last_u):
            kw["last_u"] = gen.dmv(last_u)
        return capture(self.meth, **kw)["p"]

    def eval(self, v, par):
        try:
            f, g = self.F(gen.dmv(v), par)
        except RuntimeError as e:  # the library's integrator (SUNDIALS) gave up
            if "IDASolve returned" in str(e) or "CVode returned" in str(e):
                raise Discard
            raise
        g = gen.arr(g) if g.numel() else np.zeros(0)
        viol = np.concatenate([[0.0], self.glb - g, g - self.gub, self.lb - v, v - self.ub])
        return float(f), float(np.nanmax(np.where(np.isfinite(viol), viol, 0.0)))


def own_violation(o, v, P, TH, x0):
    X, Y, U, P, TH = o.unpack(v, P, TH)
    r = np.abs(o.equalities(X, Y, U, P, TH, x0))
    lo, hi = o.expected_bounds()
    w = np.concatenate([[0.0], r, o.inequalities(X, Y, U, P, TH), lo - v, v - hi])
    return float(np.max(np.where(np.isfinite(w), w, 0.0)))


def verdict(x, tol):
    return True if x < tol else False if x > 30 * tol else None


def transcription(d):
    from yaocptool import config

    try:
        _transcription(d, config)
    finally:
        config.INTEGRATOR_OPTIONS.clear()


def _transcription(d, config):
    o = ocpgen.Ocp(d, long=True)
    o.prepare()
    o.build()
    d.label(o.scheme)
    d.label("degree=%d" % o.degree)
    d.label("dc=%d" % o.dc)
    for k, c in (("ineq", o.ineq), ("eq", o.eq), ("popt", o.popt), ("thopt", o.thopt), ("delta_u", o.delta), ("last_u", o.last_u is not None), ("h_final", o.h_final),
                 ("S", o.S != ("c", 0.0))):
        if c:
            d.label(k)
    d.note(o.describe())
    d.interesting(bool(o.un or o.ineq or o.eq or o.popt or o.thopt))
    kw = {}
    if not o.col:
        kw["integrator_type"] = d.choice(["implicit", "collocation"] + ([] if o.yn else ["rk"]))
        if kw["integrator_type"] == "implicit":
            config.INTEGRATOR_OPTIONS.update({"reltol": 1e-9, "abstol": 1e-10})
        if d.int(0, 3) == 0:
            kw["cost_as_a_sum"] = True
            d.label("cost_as_a_sum")
    meth = o.method(**kw)
    pr = Program(o, meth)
    casum = kw.get("cost_as_a_sum")
    tol = 1e-7 if o.col else 2e-5

    # layout: every decision variable is one of the described ones, once
    v = o.pack(o.X, o.Y, o.U, o.P, o.TH)
    check(not np.isnan(v).any(), "decision variables that are neither trajectory nor optimization parameters")
    lo, hi = o.expected_bounds()
    check(gen.close(pr.lb, lo, 1e-12) and gen.close(pr.ub, hi, 1e-12), "bounds of the decision variables are not the declared ones", lb=pr.lb, ub=pr.ub,
          expected_lb=lo, expected_ub=hi)

    if casum:  # element costs instead of an accumulated cost: the cost state is zero at every node
        def packed(X, Y, U, P, TH):
            return o.pack([[np.concatenate([z[:-1], [0.0]]) for z in e] for e in X], Y, U, P, TH)
    else:
        packed = o.pack
    v = packed(o.X, o.Y, o.U, o.P, o.TH)
    par = pr.par(o.P, o.TH, o.x0, o.last_u)

    # a trajectory of the dynamics with all constraints satisfied is feasible iff the oracle says so, and has the trajectory's cost
    def own(v, P, TH, x0, X=None):
        if casum:
            # judge everything but the cost state with the accumulated representation
            Xv, Yv, Uv, Pv, THv = o.unpack(v, P, TH)
            zero = max(abs(z[-1]) for e in Xv for z in e)
            acc = 0.0
            Xa = [[np.array(z) for z in e] for e in Xv]
            Xa[0][0][-1] = 0.0
            for el in range(o.N):
                z, _ = o.shoot(el, np.concatenate([Xv[el][0][:-1], [acc]]), Uv, Pv, THv)
                acc = z[-1]
                Xa[el + 1][0][-1] = acc
            return max(own_violation(o, o.pack(Xa, Yv, Uv, Pv, THv), P, TH, x0), zero)
        return own_violation(o, v, P, TH, x0)

    f, viol = pr.eval(v, par)
    exp = own(v, o.P, o.TH, o.x0)
    skipped = any(q["kind"] == "time" and q["skip"] >= 0 for q in o.eq)
    check(verdict(exp, tol) is not skipped, "harness: base trajectory", violation=exp)
    check((viol < tol) == (not skipped), "feasibility of a trajectory of the problem", violation=viol, expected_feasible=not skipped)
    J = o.cost(o.X, o.Y, o.U, o.P, o.TH)
    check(gen.close([f], [J], 1e-8 if o.col else 2e-5), "objective is not the cost of the trajectory", got=f, expected=J)

    # thresholds: exactly the named instants count
    for c in o.ineq:
        P = dict(o.P)
        P[c["p"]] -= 0.02
        a = pr.eval(v, pr.par(P, o.TH, o.x0, o.last_u))[1]
        check(a > 5e-3, "a path inequality violated at one of its instants is not in the program", when=c["when"], e=gen.show(c["e"]))
    for q in o.eq:
        if q["kind"] == "theta":
            el = d.int(0, o.N - 1)
            TH = [dict(T) for T in o.TH]
            TH[el][q["th"]] += 0.1
            check(pr.eval(v, pr.par(o.P, TH, o.x0, o.last_u))[1] > 5e-2, "a path equality violated in one element is not in the program", when=q["when"], element=el)
    if o.delta and o.last_u is not None:
        i = [k for k in range(len(o.un)) if math.isfinite(o.du_max[k]) or math.isfinite(o.du_min[k])][0]
        lu = np.array(o.last_u, float)
        lu[i] = lu[i] - 50 if math.isfinite(o.du_max[i]) else lu[i] + 50
        check(pr.eval(v, pr.par(o.P, o.TH, o.x0, lu))[1] > 1.0, "the first control move is not limited")

    # another trajectory of the dynamics
    if not skipped:
        P2, TH2 = dict(o.P), [dict(T) for T in o.TH]
        for q in o.popt:
            P2[q] += d.num(-0.5, 0.5)
        for T in TH2:
            for q in o.thopt:
                T[q] += d.num(-0.5, 0.5)
        U2 = [[z + np.array(d.vec(len(o.un), -0.5, 0.5)) for z in e] for e in o.U]
        x2 = o.x0 + np.array(d.vec(len(o.xn), -0.25, 0.25)) if d.bool() else o.x0
        X2, Y2 = o.roll(U2, P2, TH2, x2)
        o.fix_theta(X2, Y2, U2, P2, TH2)
        v2 = packed(X2, Y2, U2, P2, TH2)
        f2, viol2 = pr.eval(v2, pr.par(P2, TH2, x2, o.last_u, junk=d.num(-1, 1)))
        e2 = verdict(own(v2, P2, TH2, x2), tol)
        if e2 is not None:
            check((viol2 < 5 * tol) == e2, "feasibility of another trajectory", program=viol2, expected_feasible=e2)
            d.label("second:%s" % e2)
        check(gen.close([f2], [o.cost(X2, Y2, U2, P2, TH2)], 1e-8 if o.col else 2e-5), "objective is not the cost of the other trajectory", got=f2,
              expected=o.cost(X2, Y2, U2, P2, TH2))

        # single changes of the decision vector
        for _ in range(4):
            w = np.array(v)
            w[d.int(0, o.nv - 1)] += d.choice([0.25, -0.25])
            got = pr.eval(w, par)[1]
            e = verdict(own(w, o.P, o.TH, o.x0), tol)
            if e is not None:
                check((got < 5 * tol) == e, "feasibility after changing one decision variable", program=got, expected_feasible=e)
        # tangent space of the equality constraints
        if o.col and o.nv <= 70:
            eqr = [i for i in range(len(pr.glb)) if pr.glb[i] == pr.gub[i]]
            Jf = ca.Function("J", [pr.q.x, pr.q.p], [ca.jacobian(pr.q.g, pr.q.x)])
            J1 = np.array(ca.DM(Jf(gen.dmv(v), par)).full())[eqr]

            def R(w):
                return o.equalities(*o.unpack(w, o.P, o.TH), o.x0)

            h = 1e-5
            J2 = np.array([(R(v + h * e) - R(v - h * e)) / (2 * h) for e in np.eye(o.nv)]).T
            n1 = null(J1)
            n2 = null(J2)
            if n1 is not None and n2 is not None:
                check(n1.shape == n2.shape, "the equality constraints leave a different number of degrees of freedom", got=n1.shape[1], expected=n2.shape[1])
                if n1.size:
                    check(np.max(np.abs(J2 @ n1)) < 1e-5 * (1 + np.max(np.abs(J2))), "the equality constraints allow directions the problem does not")
                d.label("tangent")


def null(J):
    """orthonormal null space; None when the numerical rank is not clear"""
    if J.shape[0] == 0:
        return np.eye(J.shape[1])
    u, s, vt = np.linalg.svd(J)
    s = np.concatenate([s, np.zeros(J.shape[1] - len(s))]) if len(s) < J.shape[1] else s
    m = s[0] if len(s) else 1.0
    if np.any((s > 1e-9 * m) & (s < 1e-5 * m)):
        return None
    r = int(np.sum(s >= 1e-5 * m))
    return vt[r:].T


def refusals(d):
    o = ocpgen.Ocp(d, min_u=1, dc=d.choice([2, 3]), cons=False)
    o.prepare()
    o.build()
    o.ocp.delta_u_max = ca.DM([1.0] * len(o.un))
    d.interesting()
    check(raises(lambda: o.method()), "control move bounds with a polynomial control must be refused")
    o2 = ocpgen.Ocp(d, cons=False)
    o2.prepare()
    o2.build()
    o2.ocp.x_max = ca.DM([1.0] * (len(o2.xn) + 1))
    check(raises(lambda: o2.method().create_optimization_problem()), "bounds of the wrong size must be refused")
    from yaocptool.methods import DirectMethod
    check(raises(lambda: DirectMethod(o.ocp, discretization_scheme="none")), "unknown scheme must be refused")


FAMILIES = [Family("transcription", transcription, 1400, 14000, shards=7, tshards=8), Family("refusals", refusals, 25, 200)]
