"""C23: polynomial chaos conversion of stochastic optimal control problems"""
from itertools import product
from math import comb, factorial

import casadi as ca
import gen
import numpy as np
from core import Discard, Family, check, raises

RULE = ("random stochastic problems (1..2 states, 0..1 algebraic variables, uncertain parameters with numeric or symbolic means, uncertain initial conditions, correlated covariances, ordinary parameters and thetas, time-varying "
        "dynamics, bounds, chance constraints, requested statistics) x expansion orders, sample counts and both control degrees. Oracle: the samples computed with numpy, scipy integration of every sample under the reported "
        "control, least squares with scipy's Hermite polynomials for mean and variance, and a hand-written deterministic problem over all the samples for the optimum. Non-trivial: at least 2 samples")


class Case:
    def __init__(self, d):
        self.n, self.ny = d.int(1, 2), d.int(0, 1)
        n, ny = self.n, self.ny
        R = lambda a, b, w=1.0: np.array([[d.num(-w, w, 0.25) for _ in range(b)] for _ in range(a)]).reshape(a, b)
        self.nunc = d.int(0, 2)
        self.ic = sorted(d.perm(list(range(n)))[:d.int(0 if self.nunc else 1, 1)])
        self.npar, self.nth = d.int(0, 1), d.int(0, 1)
        self.A = R(n, n, 0.5) - 0.5 * np.eye(n)
        self.N = [R(n, n, 0.5) for _ in range(self.nunc)]
        self.b = [R(n, 1)[:, 0] for _ in range(self.nunc)]
        self.E, self.B = R(n, ny, 0.5), np.array([d.nonzero(-1, 1, 0.25) for _ in range(n)])
        self.bp, self.bth = R(n, 1)[:, 0], R(n, 1)[:, 0]
        self.s = R(n, 1)[:, 0] if d.bool() else np.zeros(n)
        self.H, self.K, self.g = R(ny, n), R(ny, 1)[:, 0], R(ny, 1)[:, 0]
        self.qx = [d.choice([0.5, 1.0]) for _ in range(n)]
        self.rx = [d.num(-1, 1, 0.5) for _ in range(n)]
        self.qp = d.choice([0.0, 0.5])  # uncertain parameter in the cost
        self.qy = d.choice([0.0, 0.5])

    def rhs(self, x, y, u, w, p, th, t, sin):
        """rows as lists of expressions (symbols or numbers)"""
        r = []
        for i in range(self.n):
            e = self.B[i] * u + self.s[i] * sin(2.0 * t)
            for j in range(self.n):
                e = e + self.A[i, j] * x[j]
                for k in range(self.nunc):
                    e = e + w[k] * self.N[k][i, j] * x[j]
            for k in range(self.nunc):
                e = e + w[k] * self.b[k][i]
            if self.ny:
                e = e + self.E[i, 0] * y
            if self.npar:
                e = e + self.bp[i] * p
            if self.nth:
                e = e + self.bth[i] * th
            r.append(e)
        return r

    def alg(self, x, y, u):
        e = 2.0 * y + self.K[0] * u + self.g[0]
        for j in range(self.n):
            e = e + self.H[0, j] * x[j]
        return e

    def ysol(self, x, u):
        return -(self.K[0] * u + self.g[0] + self.H[0] @ x) / 2.0

    def cost(self, x, y, u, w, p, th, t):
        e = 0.5 * u ** 2 + 0.1 * t * u
        if self.npar:
            e = e + 0.5 * (p - 0.25) ** 2
        if self.nth:
            e = e + 0.5 * (th - 0.25) ** 2
        for i in range(self.n):
            e = e + self.qx[i] * (x[i] - self.rx[i]) ** 2
        if self.nunc:
            e = e + self.qp * w[0] ** 2 * x[0]
        if self.ny:
            e = e + self.qy * y ** 2
        return e


def convert(d):
    from scipy.integrate import solve_ivp
    from scipy.special import eval_hermitenorm
    from yaocptool.methods import DirectMethod
    from yaocptool.modelling import OptimalControlProblem, StochasticOCP, SystemModel
    from yaocptool.stochastic import sample_parameter_normal_distribution_with_sobol as sample
    from yaocptool.stochastic.pce import PCEConverter

    c = Case(d)
    n, nunc, ic = c.n, c.nunc, c.ic
    q = nunc + len(ic)
    order = d.int(1, {1: 3, 2: 2, 3: 1}[q])
    npol = comb(q + order, order)
    S = npol + d.weighted([(2, 0), (1, d.int(1, 3))])
    N, t0, dt = d.int(1, 2), d.choice([0.0, 0.0, 1.0]), 0.4
    mean = np.array(d.vec(nunc, -0.5, 0.5))
    def cova(k):
        a = np.array([d.vec(k, -0.5, 0.5) for _ in range(k)]).reshape(k, k)
        return a @ a.T + 0.05 * np.eye(k)
    cov, icm, icc = cova(nunc), np.array(d.vec(len(ic), -1, 1)), cova(len(ic))
    x0 = np.array(d.vec(n, -1, 1))
    p, th = np.array(d.vec(c.npar, -1, 1)), [np.array(d.vec(c.nth, -1, 1)) for _ in range(N)]
    symbolic = nunc > 0 and d.int(0, 2) == 0
    umin, umax = (-0.5, 0.75) if d.bool() else (-10.0, 10.0)
    chance = d.weighted([(3, 0), (1, 1), (2, 2)])  # number of chance constraints
    probs = [d.choice([0.5, 0.8, 0.2]) for _ in range(chance)]
    stat = d.int(0, 2) == 0
    xb = d.choice([None, None, 1.25, 3.0])  # bound on the states
    gi = d.choice([None, None, 0.5])  # u + t <= gi + t_0 + 0.5 t
    popt = c.npar and d.bool()  # the ordinary parameter is optimized
    thopt = c.nth and d.bool()
    du = d.choice([None, None, 0.25])
    last = 0.25
    std = gen.mat(sample(ca.DM.zeros(q), ca.DM.eye(q), S))
    full = np.zeros((q, q))
    full[:nunc, :nunc], full[nunc:, nunc:] = cov, icc
    samples = np.concatenate([mean, icm]).reshape(-1, 1) + np.linalg.cholesky(full) @ std
    ex = [e for e in product(range(order + 1), repeat=q) if sum(e) <= order]
    psi = np.array([[np.prod([eval_hermitenorm(k, std[j, s]) for j, k in enumerate(e)]) for e in ex] for s in range(S)])
    cond = np.linalg.cond(psi)
    if cond > 300:
        raise Discard()
    ls = np.linalg.pinv(psi)
    norm2 = np.array([np.prod([float(factorial(k)) for k in e]) for e in ex])
    d.note("n=%d ny=%d unc=%d ic=%s order=%d S=%d N=%d t0=%s mean=%s cov=%s icm=%s icc=%s symbolic=%s u=[%s,%s] chance=%s stat=%s np=%d nth=%d xb=%s gi=%s popt=%s thopt=%s du=%s"
           % (n, c.ny, nunc, ic, order, S, N, t0, mean, cov.tolist(), icm, icc.tolist(), symbolic, umin, umax, chance, stat, c.npar, c.nth, xb, gi, popt, thopt, du))

    geq = d.choice(["default", "end", "start"]) if thopt and d.bool() else None

    def extra(o, u, t, pv, tv):
        """what both problems have in common"""
        o.u_min, o.u_max = ca.DM([umin]), ca.DM([umax])
        if gi is not None:
            o.include_time_inequality(u + 0.5 * (t - t0) - gi)
        if popt:
            o.set_parameter_as_optimization_parameter(pv, new_p_opt_min=[-1.0], new_p_opt_max=[0.5])
        if thopt:
            o.set_theta_as_optimization_theta(tv, new_theta_opt_min=[-0.5], new_theta_opt_max=[1.0])
        if geq is not None:
            o.include_time_equality(u - tv - 0.125, when=geq)
        if du is not None:
            o.delta_u_min, o.delta_u_max = ca.DM([-du]), ca.DM([du])
            o.last_u = ca.DM([last])

    # the stochastic problem
    m = SystemModel(name="m")
    xs = [m.create_state("x%d" % i) for i in range(n)]
    ys = m.create_algebraic_variable("y") if c.ny else None
    u = m.create_control("u")
    ws, ps = [], None
    parts = ["w%d" % k for k in range(nunc)] + (["p"] if c.npar else [])
    for nm in d.perm(parts):
        v = m.create_parameter(nm)
        if nm == "p":
            ps = v
        else:
            ws.append((int(nm[1:]), v))
    ws = [v for _, v in sorted(ws, key=lambda k: k[0])]
    mu = m.create_parameter("mu", nunc) if symbolic else None
    ths = m.create_theta("th") if c.nth else None
    m.include_equations(ode=ca.vertcat(*c.rhs(xs, ys, u, ws, ps, ths, m.t, ca.sin)), x=ca.vertcat(*xs))
    if c.ny:
        m.include_equations(alg=c.alg(xs, ys, u))
    o = StochasticOCP(m, x_0=gen.dmv(x0), t_0=t0, t_f=t0 + N * dt)
    o.L = c.cost(xs, ys, u, ws, ps, ths, m.t)
    extra(o, u, m.t, ps, ths)
    if xb:
        o.x_min, o.x_max = ca.DM([-xb] * n), ca.DM([xb] * n)
    if nunc:
        mm = mu if symbolic else gen.dmv(mean)
        o.set_parameter_as_uncertain_parameter(ca.vertcat(*ws), mm, ca.DM(cov))
    if ic:
        o.set_initial_condition_as_uncertain(o.model.x_0[ic], gen.dmv(icm), ca.DM(icc))
    svals = [lambda x, y, w: x[0] + (w[0] if nunc else 0.0) + (0.5 * y if c.ny else 0.0),
             lambda x, y, w: 0.5 * x[-1] - 0.25 * x[0] - (w[-1] if nunc else 0.0) + 0.5]
    stochs = [f(xs, ys, ws) for f in svals]
    which = [d.int(0, 1) for _ in range(chance)]
    rhss = [d.choice([4.0, 1.5, 2.5]) for _ in range(chance)]
    stats = [k for k in range(2) if stat and (k == 0 or d.bool())]
    if chance == 2 and d.bool():
        v = [stochs[k] for k in which]
        o.include_time_chance_inequality(v if d.bool() else ca.vertcat(*v), rhs=rhss if d.bool() else ca.DM(rhss), prob=probs if d.bool() else ca.DM(probs))
        d.label("two chance constraints in one call")
    else:
        for k, rh, pb in zip(which, rhss, probs):
            o.include_time_chance_inequality(stochs[k], rhs=[rh], prob=[pb])
    kw = {"pc_order": order}
    if S != npol or d.bool():
        kw["n_samples"] = S
    conv = PCEConverter(o, **kw)
    check(conv.n_samples == S and conv.n_pol_parameters == npol, "number of samples", got=(conv.n_samples, conv.n_pol_parameters), expected=(S, npol))
    if stat:
        conv.stochastic_variables.extend(stochs[k] for k in stats)
    pr = conv.convert_socp_to_ocp_with_pce()
    check(list(o.time_g_eq) == ([] if geq is None else [geq]) and o.n_g_eq == len(o.time_g_eq) and o.n_g_ineq == len(o.time_g_ineq),
          "the constraints of the stochastic problem changed", got=(o.g_eq, o.time_g_eq, o.g_ineq, o.time_g_ineq))
    if d.int(0, 3) == 0:  # the stochastic problem can be converted again
        conv = PCEConverter(o, **kw)
        conv.stochastic_variables.extend(stochs[k] for k in stats)
        pr = conv.convert_socp_to_ocp_with_pce()
        d.label("converted twice")
    check(pr.n_g_eq == len(pr.time_g_eq) and pr.n_g_ineq == len(pr.time_g_ineq), "every constraint has its instant", got=(pr.n_g_eq, pr.time_g_eq))
    deg = 4
    meth = DirectMethod(pr, finite_elements=N, degree=deg, degree_control=1, discretization_scheme="collocation", initial_guess_heuristic="problem_info")
    base = {"p": list(p), "mu": list(mean)}
    given = [v for nm in (["p"] if c.npar else []) + (["mu"] if symbolic else []) for v in base[nm]]
    a = {"p": gen.dmv(given + [0.0] * (npol + 2))}
    nth_opt = len(stats) * (npol + 2) + chance * (npol + 3)
    if c.nth or nth_opt:
        a["theta"] = gen.thdict(d, N, lambda el: gen.dmv(list(th[el]) + [0.0] * nth_opt))
    r = meth.solve(**a)

    # the same written by hand
    m2 = SystemModel(name="hand")
    u2 = m2.create_control("u")
    p2 = m2.create_parameter("p") if c.npar else None
    th2 = m2.create_theta("th") if c.nth else None
    X, Y, J = [], [], []
    for s in range(S):
        X.append([m2.create_state("x%d_%d" % (i, s)) for i in range(n)])
        J.append(m2.create_state("J_%d" % s))
        Y.append(m2.create_algebraic_variable("y_%d" % s) if c.ny else None)
    for s in range(S):
        w = [float(k) for k in samples[:nunc, s]]
        m2.include_equations(ode=ca.vertcat(*c.rhs(X[s], Y[s], u2, w, p2, th2, m2.t, ca.sin), c.cost(X[s], Y[s], u2, w, p2, th2, m2.t)), x=ca.vertcat(*X[s], J[s]))
        if c.ny:
            m2.include_equations(alg=c.alg(X[s], Y[s], u2))
    start = np.array([x0.copy() for _ in range(S)])
    for k, i in enumerate(ic):
        start[:, i] = samples[nunc + k]
    o2 = OptimalControlProblem(m2, x_0=gen.dmv(np.concatenate([np.append(v, 0.0) for v in start])), t_0=t0, t_f=t0 + N * dt, V=sum(float(ls[0, s]) * J[s] for s in range(S)))
    extra(o2, u2, m2.t, p2, th2)
    if xb:
        o2.x_min, o2.x_max = ca.DM(([-xb] * n + [-np.inf]) * S), ca.DM(([xb] * n + [np.inf]) * S)
    for k, rhs, prob in zip(which, rhss, probs):
        co = ca.DM(ls) @ ca.vertcat(*[svals[k](X[s], Y[s], list(samples[:nunc, s])) for s in range(S)])
        var = sum(float(norm2[k]) * co[k] ** 2 for k in range(1, npol))
        o2.include_time_inequality(co[0] + np.sqrt(prob / (1 - prob)) * ca.sqrt(ca.fmax(1e-6, var)) - rhs, when="end")
    meth2 = DirectMethod(o2, finite_elements=N, degree=deg, degree_control=1, discretization_scheme="collocation", initial_guess_heuristic="problem_info")
    a2 = {}
    if c.npar:
        a2["p"] = gen.dmv(p)
    if c.nth:
        a2["theta"] = {el: gen.dmv(th[el]) for el in range(N)}
    r2 = meth2.solve(**a2)
    if not r2.success:
        d.label("infeasible by hand")
        return
    check(bool(r.success), "the converted problem was not solved, the problem written by hand was")
    j, j2 = float(r.objective_opt_problem), float(r2.objective_opt_problem)
    check(abs(j - j2) <= 1e-4 * max(1.0, abs(j2)), "optimum of the converted problem", got=j, expected=j2)

    # every sample under the reported control
    us = [float(gen.arr(e[0])[0]) for e in r.u_data["values"]]
    po = gen.arr(r.p_opt)
    if popt:
        p = po[:1]
        check(-1 - 1e-6 <= p[0] <= 0.5 + 1e-6, "optimized parameter outside its bounds", got=p)
        po = po[1:]
    tho = {el: gen.arr(r.theta_opt[el]) for el in range(N)} if thopt or stat or chance else {}
    if thopt:
        th = [tho[el][:1] for el in range(N)]
        check(all(-0.5 - 1e-6 <= v[0] <= 1 + 1e-6 for v in th), "optimized theta outside its bounds", got=th)
        tho = {el: tho[el][1:] for el in range(N)}
    costs, ends = [], np.zeros((2, S, N))
    for s in range(S):
        x, w = np.append(start[s], 0.0), samples[:nunc, s]
        for el in range(N):
            def f(t, z, el=el):
                y = c.ysol(z[:n], us[el]) if c.ny else 0.0
                pv, tv = (p[0] if c.npar else 0.0), (th[el][0] if c.nth else 0.0)
                return np.append(c.rhs(z[:n], y, us[el], w, pv, tv, t, np.sin), c.cost(z[:n], y, us[el], w, pv, tv, t))
            got0 = gen.arr(r.x_data["values"][el][0])[s * (n + 1):(s + 1) * (n + 1)]
            check(gen.close(got0, x, 1e-3 * max(1.0, np.max(np.abs(x)))), "state of a sample at the start of an element", sample=s, element=el, got=got0, expected=x)
            x = solve_ivp(f, (t0 + el * dt, t0 + (el + 1) * dt), x, rtol=1e-9, atol=1e-10).y[:, -1]
            for k in range(2):
                ends[k, s, el] = svals[k](x[:n], c.ysol(x[:n], us[el]) if c.ny else 0.0, w)
        costs.append(x[n])
    check(all(umin - 1e-6 <= v <= umax + 1e-6 for v in us), "control outside its bounds", got=us)
    coef = ls @ np.array(costs)
    var = float(norm2[1:] @ coef[1:] ** 2)
    scale = max(1.0, np.max(np.abs(costs))) * max(1.0, np.max(np.abs(ls)))
    check(abs(j - coef[0]) <= 2e-3 * scale, "objective is not the mean of the expansion of the costs", got=j, expected=coef[0])
    check(gen.close(po[:npol], coef, 2e-3 * scale) and abs(po[npol] - coef[0]) < 2e-3 * scale and abs(po[npol + 1] - var) < 5e-3 * scale ** 2, "coefficients, mean and variance of the cost", got=po, expected=(coef, coef[0], var))
    if stat or chance:
        for el in range(N):
            v = tho[el]
            sc = max(1.0, np.max(np.abs(ends))) * max(1.0, np.max(np.abs(ls)))
            blocks = [(k, None, None, npol + 2) for k in stats] + [(k, a_, b_, npol + 3) for k, a_, b_ in zip(which, rhss, probs)]
            b = 0
            for k, rhs, prob, size in blocks:
                co = ls @ ends[k, :, el]
                vr = float(norm2[1:] @ co[1:] ** 2)
                check(abs(v[b] - co[0]) < 2e-3 * sc and abs(v[b + 1] - vr) < 5e-3 * sc ** 2 and gen.close(v[b + 2:b + 2 + npol], co, 2e-3 * sc), "statistics of an expression", element=el, got=v, expected=(co[0], vr, co))
                if rhs is not None:
                    lhs = co[0] + np.sqrt(prob / (1 - prob)) * np.sqrt(max(1e-6, vr))
                    check(lhs <= rhs + 2e-3 * sc, "chance constraint violated", element=el, got=lhs, expected=rhs)
                    slack = v[b + npol + 2]
                    tl = 5e-3 * sc if vr > 0.05 else 5e-3 * sc + 0.5 * np.sqrt(prob / (1 - prob)) * np.sqrt(5e-3) * sc
                    check(slack <= 1e-6 and abs(slack - (lhs - rhs)) <= tl, "distance to the limit of a chance constraint", element=el, got=slack, expected=lhs - rhs)
                    d.label("distance to the limit")
                b += size
    d.label("uncertain initial condition" if ic else "uncertain parameters only")
    for k, v in (("chance constraint", chance), ("statistics", stat), ("symbolic mean", symbolic), ("algebraic", c.ny), ("theta", c.nth), ("state bounds", xb), ("control inequality", gi is not None), ("control equality", geq is not None), ("optimized parameter", popt), ("optimized theta", thopt), ("delta u", du is not None), ("no other parameter", not c.npar and not symbolic)):
        if v:
            d.label(k)
    d.interesting()


def refused(d):
    """what the conversion does not support is refused, not dropped"""
    from yaocptool.modelling import StochasticOCP, SystemModel
    from yaocptool.stochastic.pce import PCEConverter

    m = SystemModel(name="m")
    n, ny = d.int(1, 2), d.int(1, 2)
    x = [m.create_state("x%d" % i) for i in range(n)]
    y = [m.create_algebraic_variable("y%d" % i) for i in range(ny)]
    u, p = m.create_control("u"), m.create_parameter("p")
    m.include_equations(ode=ca.vertcat(*[-p * v + u for v in x]), alg=ca.vertcat(*[v - x[0] for v in y]))
    o = StochasticOCP(m, x_0=ca.DM([1.0] * n), t_f=1.0)
    o.L = x[0] ** 2 + u ** 2
    o.set_parameter_as_uncertain_parameter(p, ca.DM([1.0]), ca.DM([[0.04]]))
    what = d.choice(["nothing", "eq u", "ineq u", "eq x", "eq y", "ineq x", "ineq y", "V", "S"])
    d.label(what)
    v = {"x": d.choice(x), "y": d.choice(y), "u": u}.get(what[-1])
    e = (v - 0.25 if d.bool() else v + d.choice([0.5, 1.0]) * u) if v is not None else None
    if what in ("eq u", "ineq u"):
        e = u - m.t
    if d.bool() and what != "nothing" and what[0] != "e":
        o.include_time_inequality(u - 5.0)
    if what.startswith("eq"):
        o.include_time_equality(e)
    elif what.startswith("ineq"):
        o.include_time_inequality(e)
    elif what == "V":
        o.V = d.choice(x) ** 2
    elif what == "S":
        o.S = d.choice(x) ** 2
    bad = what not in ("nothing", "eq u", "ineq u")
    f = lambda: PCEConverter(o, n_samples=4, pc_order=2).convert_socp_to_ocp_with_pce()
    if bad:
        check(raises(f, NotImplementedError), "an unsupported %s is silently dropped" % what)
        d.interesting()
    else:
        r = f()
        k = {"eq u": r.g_eq, "ineq u": r.g_ineq}.get(what)
        check(k is None or k.numel() >= 1, "the constraint is not in the converted problem", what=what)


FAMILIES = [Family("refused", refused, 90, 600, shards=2, budget=60), 
    Family("convert", convert, 600, 4000, shards=8, tshards=8),
]
