"""C15: the augmented Lagrangian method follows its multiplier laws and converges"""
import math

import casadi as ca
import gen
import numpy as np
import ocpgen
from core import Family, check

RULE = ("random linear-quadratic problems with DAE dynamics x which algebraic equations (any order), dense time equalities and state bounds are relaxed x degrees x elements x penalty rule, growth, cap, "
        "start, tolerance, iteration limit x way of giving the grid (method options or solver options) x one or two calls of solve. Oracle: violations of the relaxed equations recomputed "
        "from the decision vector of every inner solve (Lagrange interpolation / independent integration), the update laws applied to them, the Lagrangian recomputed by quadrature, and the unrelaxed problem "
        "transcribed and solved independently. Non-trivial: something is relaxed and at least two inner solves or a comparison with the unrelaxed optimum took place")

INF = math.inf


class Rel(ocpgen.LQ):
    """LQ problem of which some equations are relaxed"""

    def __init__(self, d, scheme, want=None):
        what = want or d.choice(["y", "e", "b", "ye", "yb", "eb", "yeb", "y"])
        if scheme != "collocation":
            what = what.replace("e", "") or "y"
        super().__init__(d, scheme=scheme, cons=False, opts=d.int(0, 3) == 0, delta=False, min_y=int("y" in what), max_y=2 if "y" in what else d.int(0, 1), max_el=3, max_deg=3, dc=1,
                         bounds="e" not in what and d.bool())
        ny = self.sy.n["y"]
        self.dc = self.degree if ("e" in what or d.int(0, 3)) else d.int(1, self.degree)
        self.rel_alg = []
        if "y" in what:
            ys = d.perm(list(range(ny)))
            self.rel_alg = ys[:d.int(1, ny)]
        if not self.col:
            self.rel_alg = d.perm(list(range(ny)))
        self.rel_eq = []
        self.n_eq = d.int(1, len(self.un)) if "e" in what else 0
        for k in range(self.n_eq):
            nm = "w%d" % k
            self.thn.append(nm)
            e = ("+", ocpgen.aff(d, self.xn, "t", 0.5), ("v", self.un[k]))
            self.eq.append({"kind": "theta", "e": e, "th": nm, "when": "default"})
        if self.n_eq:
            es = d.perm(list(range(self.n_eq)))
            self.rel_eq = es[:d.int(1, self.n_eq)]
        self.rel_x = "b" in what

    def prepare(self):
        super().prepare()
        d = self.d
        if self.rel_x:
            nx = len(self.xn)
            vals = np.array([v[:nx] for e in self.X for v in e])
            self.x_lo, self.x_hi = np.full(nx, -INF), np.full(nx, INF)
            for i in range(nx):
                if d.bool():
                    self.x_lo[i] = vals[:, i].min() - d.choice([0.01, 0.2])
                if d.bool():
                    self.x_hi[i] = vals[:, i].max() + d.choice([0.01, 0.2])
        self.sb = [i for i in range(len(self.xn)) if self.rel_x and (math.isfinite(self.x_lo[i]) or math.isfinite(self.x_hi[i]))]

    @property
    def n_rel(self):
        return len(self.rel_alg) + len(self.rel_eq) + len(self.sb)


def relaxed(o, t, x, y, u, bx, P, TH):
    """values of the relaxed equations by name: y_i (algebraic equation i), e_i (time equality i), b_i (copy of state i)"""
    sy = o.sy
    out = {}
    if o.rel_alg:
        r = sy.G @ y + sy.H @ x + sy.K @ u + sy.L @ o.pv(P) + sy.M @ o.thv(TH) + sy.g + sy.v * math.sin(t)
        for i in o.rel_alg:
            out["y%d" % i] = float(r[i])
    for i in o.rel_eq:
        q = o.eq[i]
        out["e%d" % i] = gen.evalf(q["e"], o.env(t, x, y, u, P, TH)) - TH[q["th"]]
    for k, i in enumerate(o.sb):
        out["b%d" % i] = bx[k] - float(x[i])
    return out


class Decode:
    def __init__(self, o, meth):
        self.o = o
        nv = meth.opt_problem.x.numel()
        x, y, u, _, po, to = meth.discretizer.unpack_decision_variables(ca.DM(list(range(nv))))
        I = lambda v: [int(k) for k in gen.arr(v)] if v.numel() else []
        self.x = [[I(v) for v in e] for e in x]
        self.y = [[I(v) for v in e] for e in y]
        self.u = [[I(v) for v in e] for e in u]
        self.po, self.to = I(po), [I(v) for v in to]
        m = meth.problem.model
        xn, yn, un = list(m.x_names), list(m.y_names), list(m.u_names)
        self.jx = [xn.index(q) for q in o.xn]
        self.jy = {q: yn.index(q) for q in o.yn if q in yn}
        self.ju = {q: un.index(q) for q in un}

    def points(self, v, P, TH):
        """[(el, j, t, x, y, u, copies of bounded states, P, TH)] at the multiplier points"""
        o = self.o
        c = ocpgen.radau(o.degree)
        cu = ocpgen.radau(o.dc)
        P = dict(P)
        P.update(zip(o.popt, v[self.po]) if o.popt else [])
        out = []
        for el in range(o.N):
            T = dict(TH[el])
            T.update(zip(o.thopt, v[self.to[el]]) if o.thopt else [])
            for j, tau in enumerate(c):
                t = o.time(el, tau)
                if o.dc == 1:
                    ua = v[self.u[el][0]]
                else:
                    ua = ocpgen.lagrange(cu, tau) @ np.array([v[k] for k in self.u[el]])
                u = np.array([ua[self.ju[q]] for q in o.un])
                bx = [ua[self.ju["y_x_%d" % i]] for i in o.sb]
                yv = np.zeros(len(o.yn))
                for k, q in enumerate(o.yn):
                    yv[k] = ua[self.ju[q]] if q in self.ju else v[self.y[el][j][self.jy[q]]]
                if o.col:
                    x = np.array([v[self.x[el][j + 1][k]] for k in self.jx])
                else:
                    x = self.integrate(v, el, tau, P, T)
                out.append((el, j, t, x, yv, u, bx, P, T))
        return out

    def integrate(self, v, el, tau, P, T):
        from scipy.integrate import solve_ivp

        o = self.o
        cu = ocpgen.radau(o.dc)
        us = np.array([v[k] for k in self.u[el]])
        x0 = np.array([v[self.x[el][0][k]] for k in self.jx])
        ta = o.time(el, 0.0)

        def F(t, x):
            ua = us[0] if o.dc == 1 else ocpgen.lagrange(cu, (t - ta) / o.dt) @ us
            return o.f_full(t, x, np.array([ua[self.ju[q]] for q in o.yn]), np.array([ua[self.ju[q]] for q in o.un]), o.pv(P), o.thv(T))

        return solve_ivp(F, (ta, o.time(el, tau)), x0, method="DOP853", rtol=1e-10, atol=1e-11).y[:, -1]


def make(o, d, opts):
    from yaocptool.methods import AugmentedLagrangian, DirectMethod
    from yaocptool.methods.augmented_lagrangian import AugmentedLagrangianOptions

    so = dict(discretization_scheme=o.scheme, degree_control=o.dc, initial_guess_heuristic=d.choice(["problem_info", "simulation"]))
    if not o.col:
        so["integrator_type"] = "rk"  # every algebraic variable is relaxed
    op = dict(opts)
    for k, v in (("degree", o.degree), ("finite_elements", o.N)):
        w = d.int(0, 2)
        if w != 1:
            so[k] = v
        if w != 0:
            op[k] = v
    before = dict(so)
    kw = {}
    if o.rel_alg != list(range(len(o.yn))) or d.bool():
        kw["relax_algebraic_index"] = list(o.rel_alg)
    if o.rel_eq:
        kw["relax_time_equality_index"] = list(o.rel_eq)
    if o.rel_x:
        kw["relax_state_bounds"] = True
    al = AugmentedLagrangian(o.ocp, DirectMethod, solver_options=so, options=op if d.bool() else AugmentedLagrangianOptions(**op), no_update_after_solving=False, **kw)
    check(so == before, "the given solver options were changed", got=so, expected=before)
    o.bounds_kept()
    check(al.ocp_solver.degree == o.degree and al.ocp_solver.finite_elements == o.N and al.degree == o.degree and al.finite_elements == o.N,
          "method and inner solver do not use the given grid", inner=(al.ocp_solver.degree, al.ocp_solver.finite_elements), method=(al.degree, al.finite_elements))
    return al


def names(o):
    """order of the multipliers is the library's own; this is the order in which its documentation relaxes: algebraic, then equalities/bounds"""
    return ["y%d" % i for i in o.rel_alg], ["e%d" % i for i in o.rel_eq], ["b%d" % i for i in o.sb]


def laws(d):
    o = Rel(d, d.weighted([(5, "collocation"), (1, "multiple-shooting")]))
    o.prepare()
    if not o.n_rel:
        d.label("nothing relaxed")
        return
    o.build()
    opts = dict(max_iter=d.int(1, 5), tol=d.choice([1e-6, 1e-4, 1e-2]), mu_0=d.choice([0.5, 1.0, 5.0]), mu_max=d.choice([4.0, 100.0, 1e4]), beta=d.choice([2.0, 4.0, 10.0]),
                mu_update_rule=d.choice(["bounded-increase", "primal", "constant"]), mu_min_error_decrease=d.choice([0.1, 0.5, 0.9]),
                only_update_if_improve=d.int(0, 3) == 0)
    if opts["max_iter"] == 5 and d.bool():
        opts["max_iter"] = 14
    d.note("%s relax alg=%s eq=%s states=%s %s" % (o.describe(), o.rel_alg, o.rel_eq, o.sb, opts))
    al = make(o, d, opts)
    rec = []
    inner = al.ocp_solver.solve

    def spy(*a, **k):
        r = inner(*a, **k)
        rec.append({"p": gen.arr(k["p"]), "theta": {e: gen.arr(v) for e, v in k["theta"].items()}, "x": gen.arr(r.raw_solution_dict["x"]), "f": float(r.raw_solution_dict["f"]),
                    "ok": bool(r.raw_solution_dict["stats"]["success"])})
        return r

    al.ocp_solver.solve = spy
    calls = []
    for _ in range(d.weighted([(3, 1), (1, 2)])):
        kw = {}
        if o.pn or d.bool():
            kw["p"] = d.choice([o.p_arg(o.P), [float(o.P[q]) for q in o.pn]]) if o.pn else None
        if o.thn:
            kw["theta"] = o.th_arg(o.TH)
        n0 = len(rec)
        res = al.solve(**kw)
        calls.append((n0, len(rec), res))
    mu_end = gen.arr(al.mu)
    dec = Decode(o, al.ocp_solver)
    nP, nT, n = len(o.pn), len(o.thn), o.n_rel
    A = ocpgen.butcher(o.degree)
    alg, eq, sb = names(o)
    tol = 1e-6 if o.col else 2e-5
    # multipliers may be arranged in any fixed order; the order has to agree with the Lagrangian that is minimised
    orders = []
    for cand in (alg + eq + sb, alg + sb + eq, eq + alg + sb, eq + sb + alg, sb + alg + eq, sb + eq + alg):
        if cand not in orders:
            orders.append(cand)
    problems = []
    for order in orders:
        try:
            follow(o, d, al, rec, calls, dec, order, opts, nP, nT, n, A, tol, mu_end)
            break
        except Exception as e:
            problems.append(e)
    else:
        raise problems[0]
    d.interesting(len(rec) > 1)


def follow(o, d, al, rec, calls, dec, order, opts, nP, nT, n, A, tol, mu_end):
    mu = np.full(n, opts["mu_0"])
    nu = np.zeros((o.N, o.degree, n))
    last = None
    ends = {b - 1: (a, b, r) for a, b, r in calls}
    for k, it in enumerate(rec):
        P, TH = dict(o.P), [dict(T) for T in o.TH]
        check(it["p"].size == nP + n, "size of the parameters given to the inner solver", got=it["p"].size, expected=nP + n)
        if nP:
            keep = [i for i, q in enumerate(o.pn) if q not in o.popt]
            check(gen.close(it["p"][:nP][keep], np.array([o.P[q] for q in o.pn])[keep], 1e-12), "the inner solver did not get the given parameters", iteration=k)
        check(gen.close(it["p"][nP:], mu, 1e-9), "penalty parameter is not that of the update law", iteration=k, got=it["p"][nP:], expected=mu)
        for el in range(o.N):
            th = it["theta"][el]
            check(th.size == nT + n * o.degree, "size of the theta given to the inner solver", got=th.size, expected=nT + n * o.degree)
            got = th[nT:].reshape(o.degree, n)
            check(gen.close(got, nu[el], tol * max(1.0, np.max(np.abs(nu)))), "multipliers are not those of the update law", iteration=k, element=el, got=got, expected=nu[el], order=order)
            nu[el] = got
        viol = np.zeros((o.N, o.degree, n))
        J = 0.0
        pts = dec.points(it["x"], P, TH)
        for el, j, t, x, y, u, bx, P_, T_ in pts:
            c = relaxed(o, t, x, y, u, bx, P_, T_)
            viol[el, j] = [c[q] for q in order]
            J += o.dt * A[-1, j] * (gen.evalf(o.L, o.env(t, x, y, u, P_, T_)) + float(nu[el, j] @ viol[el, j] + 0.5 * mu @ (viol[el, j] ** 2)))
            if j == o.degree - 1:
                J += gen.evalf(o.S, o.env(t, x, y, u, P_, T_))
        J += gen.evalf(o.V, o.env(o.tf, x, [0] * len(o.yn), [0] * len(o.un), P_, {q: 0 for q in o.thn}))
        if o.col and it["ok"]:
            check(gen.close([it["f"]], [J], 1e-5), "the minimised function is not the augmented Lagrangian of the problem", iteration=k, got=it["f"], expected=J, order=order)
        err = np.max(np.abs(viol), axis=(0, 1))
        # ---- multipliers
        new = nu + mu * viol
        if opts["only_update_if_improve"] and last is not None and np.any(err > 0):
            if np.any(np.abs(err - last) < 1e-7 * (1 + np.abs(last))) and k + 1 < len(rec):
                d.label("improvement undecided")
                return
            better = err < last
            new = np.where(better, new, nu)
        # ---- penalty
        if opts["mu_update_rule"] == "bounded-increase":
            mu2 = np.minimum(opts["mu_max"], mu * opts["beta"])
        elif opts["mu_update_rule"] == "primal" and last is not None:
            lim = opts["mu_min_error_decrease"] * last
            if np.any(np.abs(err - lim) < 1e-7 * (1 + lim)):
                d.label("decrease undecided")
                return
            mu2 = np.where(err <= lim, mu, np.minimum(opts["mu_max"], mu * opts["beta"]))
        else:
            mu2 = mu
        done = bool(np.all(err < opts["tol"]))
        sure = not np.any(np.abs(err - opts["tol"]) < 1e-3 * opts["tol"] + 1e-8)
        a, b, res = ends.get(k, (None, None, None))
        start = max(x for x, _, _ in calls if x <= k)
        if sure:
            stop = done or k - start + 1 == opts["max_iter"]
            check((k in ends) == stop, "the method does not stop exactly when the violation is below the tolerance or the iteration limit is reached", iteration=k, violation=err,
                  tol=opts["tol"], stopped=k in ends)
        if k in ends:
            report(o, al, res, viol, nu, err, order, tol, k == len(rec) - 1)
            if done and sure:
                d.label("converged")
        nu, mu, last = new, mu2, err
    check(gen.close(mu_end, mu, 1e-9), "penalty parameter after the last iteration is not that of the update law", got=mu_end, expected=mu)
    for lab in (opts["mu_update_rule"], "iterations>1" if len(rec) > 1 else "one iteration", "two calls" if len(calls) > 1 else "one call", o.scheme):
        d.label(lab)
    for q in order:
        d.label({"y": "algebraic relaxed", "e": "equality relaxed", "b": "state bound relaxed"}[q[0]])


def report(o, al, res, viol, nu, err, order, tol, last):
    s = max(1.0, np.max(np.abs(nu)))
    got = np.array([[gen.arr(v) for v in e] for e in res.other_data["nu"]["values"]])
    check(gen.close(got.reshape(nu.shape), nu, tol * s), "reported multipliers are not those of the last solve", got=got, expected=nu)
    ia = [k for k, q in enumerate(order) if q[0] != "e"]
    ie = [k for k, q in enumerate(order) if q[0] == "e"]
    for key, idx in (("alg_violation", ia), ("eq_violation", ie)):
        if idx:
            got = np.array([[gen.arr(v) for v in e] for e in res.other_data[key]["values"]])
            check(gen.close(got.reshape(viol[:, :, idx].shape), viol[:, :, idx], tol * 10), "reported %s" % key, got=got, expected=viol[:, :, idx])
    c = ocpgen.radau(o.degree)
    tt = np.array([[o.time(el, x) for x in c] for el in range(o.N)])
    check(gen.close(np.array(res.other_data["nu"]["time"], dtype=float), tt, 1e-9), "times of the multipliers", got=res.other_data["nu"]["time"], expected=tt)
    if last:
        check(gen.close(np.sort(gen.arr(res.statistics["violation_error"])), np.sort(err), tol * 10), "reported violation", got=res.statistics["violation_error"], expected=err)


def converge(d):
    """dense relaxation: the relaxed program has the same minimiser as the unrelaxed one"""
    o = Rel(d, "collocation")
    o.dc = o.degree
    o.prepare()
    if not o.n_rel:
        d.label("nothing relaxed")
        return
    ref = o.reference()
    if not ref["ok"]:
        d.label("unrelaxed problem not solved")
        return
    o.build()
    opts = dict(max_iter=25, tol=1e-6, mu_0=d.choice([1.0, 10.0]), mu_max=d.choice([1e3, 1e4]), beta=d.choice([4.0, 10.0]), mu_update_rule=d.choice(["bounded-increase", "primal"]))
    d.note("%s relax alg=%s eq=%s states=%s %s" % (o.describe(), o.rel_alg, o.rel_eq, o.sb, opts))
    x1 = None
    if d.int(0, 2) == 0:
        x1 = o.x0 + np.array(d.vec(len(o.xn), -0.25, 0.25))
        ref1 = o.reference(x0=x1)
        if ref1["ok"]:
            ref = ref1
            d.label("x_0 given")
        else:
            x1 = None
    al = make(o, d, opts)
    kw = {}
    if x1 is not None:
        al.create_optimization_problem()
        check(al.opt_problem is not None and al.opt_problem.x.numel() == al.ocp_solver.opt_problem.x.numel(), "the program of the method")
        nm = al.ocp_solver.model.x_names
        z = [0.0] * len(nm)
        for q, v in zip(o.xn, x1):
            z[nm.index(q)] = float(v)
        kw["x_0"] = d.choice([gen.dmv, list])(z)
    if o.pn:
        kw["p"] = d.choice([o.p_arg(o.P), [float(o.P[q]) for q in o.pn]] + ([float(o.P[o.pn[0]])] if len(o.pn) == 1 else []))
    if o.thn:
        kw["theta"] = o.th_arg(o.TH)
    res = al.solve(**kw)
    err = gen.arr(al.last_violation_error)
    if not np.all(err < opts["tol"]):
        d.label("not converged")
        check(np.all(err < 0.2), "the violation does not decrease on a convex feasible problem", violation=err)
        return
    check(bool(res.success), "the inner solver failed although convergence is reported")
    check(gen.close(gen.arr(res.objective_opt_problem), [ref["J"]], 2e-4), "cost is not that of the unrelaxed problem", got=res.objective_opt_problem, expected=ref["J"])
    iu = [res.u_names.index(q) for q in o.un]
    u = np.array([gen.arr(v)[iu] for e in res.u_data["values"] for v in e]).T
    check(gen.close(u, ref["u"], 2e-2), "controls are not those of the unrelaxed problem", got=u, expected=ref["u"])
    ix = [res.x_names.index(q) for q in o.xn]
    x = np.array([gen.arr(e[0])[ix] for e in res.x_data["values"]]).T
    check(gen.close(x, ref["x"], 2e-2), "states are not those of the unrelaxed problem", got=x, expected=ref["x"])
    for k, q in enumerate(o.yn):  # bounds of the relaxed algebraic variables still hold
        if q in res.u_names:
            v = np.array([gen.arr(w)[res.u_names.index(q)] for e in res.u_data["values"] for w in e])
            check(np.all(v >= o.y_lo[k] - 1e-5) and np.all(v <= o.y_hi[k] + 1e-5), "a relaxed algebraic variable leaves its bounds", got=v, bounds=(o.y_lo[k], o.y_hi[k]))
    d.label("converged")
    for q in (("alg", o.rel_alg), ("eq", o.rel_eq), ("state bounds", o.sb)):
        if q[1]:
            d.label("relaxed " + q[0])
    d.interesting()


def structure(d):
    """relaxed algebraic variables keep their bounds and guesses when they become controls; what is not relaxed stays"""
    from yaocptool.methods import AugmentedLagrangian, DirectMethod

    o = Rel(d, "collocation", d.choice(["y", "ye"]))
    o.prepare()
    ny = len(o.yn)
    if not o.rel_alg:
        d.label("nothing relaxed")
        return
    o.build()
    ocp = o.ocp
    guess = [d.num(-2, 2) for _ in range(ny)] if d.bool() else None
    if guess is not None:
        ocp.y_guess = gen.dmv(guess)
        ocp.u_guess = gen.dmv([0.125 * (i + 1) for i in range(len(o.un))])
    var = d.perm(o.rel_alg) if d.bool() else None
    ylo, yhi, ulo, uhi = o.y_lo.copy(), o.y_hi.copy(), o.u_lo.copy(), o.u_hi.copy()
    kw = {} if var is None else {"relax_algebraic_var_index": var}
    al = AugmentedLagrangian(ocp, DirectMethod, solver_options={"degree": o.degree, "finite_elements": o.N}, relax_algebraic_index=list(o.rel_alg), **kw)
    vs = o.rel_alg if var is None else var
    un = o.un + [o.yn[i] for i in vs]
    yn = [q for i, q in enumerate(o.yn) if i not in vs]
    check(list(al.model.u_names) == un and list(al.model.y_names) == yn, "controls and algebraic variables after the relaxation", got=(al.model.u_names, al.model.y_names), expected=(un, yn))
    for key, base, lib in (("min", list(ulo) + [ylo[i] for i in vs], ocp.u_min), ("max", list(uhi) + [yhi[i] for i in vs], ocp.u_max)):
        check(gen.close(gen.arr(lib), base, 1e-12), "bounds (%s) of the controls after the relaxation" % key, got=lib, expected=base)
    rest = [i for i in range(ny) if i not in vs]
    check(gen.close(gen.arr(ocp.y_min) if rest else np.zeros(0), ylo[rest], 1e-12) and gen.close(gen.arr(ocp.y_max) if rest else np.zeros(0), yhi[rest], 1e-12), "bounds of the remaining algebraic variables")
    if guess is not None:
        exp = [0.125 * (i + 1) for i in range(len(o.un))] + [guess[i] for i in vs]
        check(gen.close(gen.arr(ocp.u_guess), exp, 1e-12), "guesses of the controls after the relaxation", got=ocp.u_guess, expected=exp)
    check(al.model.n_alg == ny - len(vs) if hasattr(al.model, "n_alg") else True, "number of algebraic equations")
    # the equations that were not relaxed are still there
    m = al.model
    if rest:
        names = {"t": m.t}
        vals = {}
        f = ca.Function("f", list(m.all_sym), [m.alg], {"allow_free": True})
        env = {q: d.num(-1, 1) for q in o.xn + o.yn + o.un + o.base_p + o.base_th}
        args = []
        tv = 0.7
        for s in m.all_sym:
            args.append(ca.DM([env.get(s[i].name(), 0.0) if s[i].name() != m.t.name() else tv for i in range(s.numel())]) if s.numel() else ca.DM(*s.shape))
        got = np.sort(gen.arr(f(*args)))
        sy = o.sy
        arr = lambda ns: np.array([env[q] for q in ns])
        r = sy.G @ arr(o.yn) + sy.H @ arr(o.xn) + sy.K @ arr(o.un) + sy.L @ arr(o.base_p) + sy.M @ arr(o.base_th) + sy.g + sy.v * math.sin(tv)
        exp = np.sort(r[[i for i in range(ny) if i not in o.rel_alg]])
        check(gen.close(got, exp, 1e-9), "remaining algebraic equations", got=got, expected=exp)
    d.label("guess" if guess is not None else "no guess")
    d.label("other variables" if var is not None and var != o.rel_alg else "same variables")
    d.interesting()


def equalities(d):
    """of several time equalities, a subset given in any order is relaxed: the others stay, each with its own instants, and the relaxed ones are penalised"""
    from yaocptool.methods import AugmentedLagrangian, DirectMethod
    from yaocptool.modelling import OptimalControlProblem, SystemModel

    nx, nu, n = d.int(1, 2), d.int(1, 2), d.int(1, 5)
    m = SystemModel("m")
    x, u = m.create_state("x", nx), m.create_control("u", nu)
    m.include_equations(ode=-x + u[0])
    ocp = OptimalControlProblem(m, x_0=ca.DM.zeros(nx), t_f=1.0)
    env = {"x": ca.DM(d.vec(nx, -2, 2)), "u": ca.DM(d.vec(nu, -2, 2)), "t": d.num(0, 1)}
    W = [[d.num(-2, 2) for _ in range(nx + nu + 2)] for _ in range(n)]
    expr = lambda w, x, u, t: sum(a * b for a, b in zip(w, [x[i] for i in range(nx)] + [u[i] for i in range(nu)] + [t])) + w[-1]
    when = [d.choice(["default", "end", "start"]) for _ in range(n)]
    k = 0
    while k < n:  # one call with one or two equalities of the same instants
        two = k + 1 < n and when[k + 1] == when[k] and d.bool()
        e = [expr(W[j], ocp.model.x, ocp.model.u, ocp.model.t) for j in range(k, k + 1 + two)]
        ocp.include_time_equality(e if two or d.bool() else e[0], when=when[k])
        k += 1 + two
    L0 = d.choice([0.0, 1.0])
    ocp.L = L0 * ca.dot(ocp.model.x, ocp.model.x)
    rel = d.perm(list(range(n)))[:d.int(1, n)]
    mu = d.choice([0.5, 1.0, 4.0])
    given = list(rel)
    al = AugmentedLagrangian(ocp, DirectMethod, solver_options={"degree": d.int(1, 3), "finite_elements": d.int(1, 3)}, relax_time_equality_index=given, options={"mu_0": mu})
    rest = [i for i in range(n) if i not in rel]
    d.note("instants=%s relaxed=%s" % (when, rel))
    d.label("in order" if rel == sorted(rel) else "in another order")
    check(given == rel, "the index list was changed", got=given, expected=rel)
    q = al.problem
    check(list(q.time_g_eq) == [when[i] for i in rest] and q.g_eq.numel() == len(rest), "instants of the remaining equalities", got=(q.time_g_eq, q.g_eq.numel()), expected=[when[i] for i in rest])
    mm = q.model
    val = [env["x"], env["u"], env["t"]]
    names = {"x": val[0], "u": val[1], "t": val[2], "p": ca.DM.ones(mm.n_p) * mu, "theta": ca.DM.zeros(mm.n_theta), "tau": d.num(0, 1)}
    f = ca.Function("f", [mm.x, mm.u, mm.t, mm.p, mm.theta, mm.tau], [q.g_eq, q.L, mm.ode], {"allow_free": False})
    g, L, ode = f(*[names[c] for c in ("x", "u", "t", "p", "theta", "tau")])
    E = [float(expr(w, *val)) for w in W]
    check(gen.close(gen.arr(g) if rest else np.zeros(0), np.array([E[i] for i in rest]), 1e-9), "remaining equalities", got=g, expected=[E[i] for i in rest])
    exp = L0 * float(ca.dot(val[0], val[0])) + mu / 2 * sum(E[i] ** 2 for i in rel)
    check(gen.close([float(L)], [exp], 1e-9), "penalised cost (multipliers at zero)", got=L, expected=exp)
    check(al.mu.numel() == len(rel) and gen.close(gen.arr(al.mu), np.full(len(rel), mu), 0), "penalties", got=al.mu)
    check(gen.close(gen.arr(ode), gen.arr(-val[0] + val[1][0]), 1e-12), "dynamics after the relaxation")
    d.interesting(len(rel) > 1 and bool(rest))


FAMILIES = [
    Family("laws", laws, 600, 4000, shards=3, tshards=8),
    Family("converge", converge, 400, 3000, shards=3, tshards=8),
    Family("structure", structure, 400, 3000, shards=1, tshards=4),
    Family("equalities", equalities, 400, 3000, shards=1, tshards=4),
]
