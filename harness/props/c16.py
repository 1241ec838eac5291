"""C16: control parametrization changes the representation, not the meaning"""
import casadi as ca
import gen
import numpy as np
import ocpgen
from core import Family, check, raises

RULE = ("random models and problems x sequences of parametrizations (one or several controls at once, chained through other controls, with and without new parameters, expressions of states, algebraic variables, "
        "parameters, thetas, time) interleaved with declaring further controls and copying, x refused calls. Oracle: evaluation of the declared expressions with the controls computed from the recorded expressions, "
        "scipy integration of the closed loop, a twin problem in which the expression was written instead of the control, Lagrange interpolation for piecewise polynomials. Non-trivial: at least one control is parametrized")


def expression(d, names, t=True):
    e = ocpgen.aff(d, names, "t" if t else None, 0.5)
    if names and d.int(0, 2) == 0:
        e = ("+", e, ("sin", ("v", d.choice(names))))
    return e


class Loop:
    """a model some of whose controls are given by expressions; env() computes all of them"""

    def __init__(self, d, sy):
        self.d, self.sy = d, sy
        n = sy.n
        self.xn, self.yn = ["x%d" % i for i in range(n["x"])], ["y%d" % i for i in range(n["y"])]
        self.un = ["u%d" % i for i in range(n["u"])]
        self.pn, self.thn = ["p%d" % i for i in range(n["p"])], ["th%d" % i for i in range(n["theta"])]
        self.order = list(self.un)  # control parameters, in the order the model expects them
        self.expr = {}
        self.new = []

    def symbols(self, m, s):
        self.sym = {"t": m.t}
        for k, names in (("x", self.xn), ("y", self.yn), ("u", self.un), ("p", self.pn), ("theta", self.thn)):
            self.sym.update(zip(names, s[k]))

    def pick(self):
        """controls to parametrize now, expressions and new parameters"""
        d = self.d
        free = [q for q in self.un if q not in self.expr]
        if not free:
            return None
        sub = d.perm(free)[:d.int(1, len(free))]
        rest = [q for q in free if q not in sub]
        pars, ex = [], []
        for q in sub:
            names = list(self.xn + self.pn + self.thn)
            if rest and d.bool():
                names += rest
                d.label("expression of another control")
            mine = []
            for _ in range(d.int(0, 2)):
                a = "a%d" % (len(self.new) + len(pars) + len(mine))
                mine.append(a)
            pars += mine
            ex.append(expression(d, names + mine))
        return sub, ex, pars

    def apply(self, target, sub, ex, pars):
        """on a model or a problem; the expressions may mention controls that are parametrized later"""
        for a in pars:
            self.sym[a] = ca.SX.sym(a)
        u = ca.vertcat(*[self.sym[q] for q in sub])
        e = ca.vertcat(*[gen.to_sx(k, self.sym) for k in ex])
        if pars or self.d.bool():
            target.parametrize_control(u, e, ca.vertcat(*[self.sym[a] for a in pars]) if pars else (ca.SX(0, 1) if self.d.bool() else None))
        else:
            target.parametrize_control(u=u, expr=e)
        for q, k in zip(sub, ex):
            self.expr[q] = k
        self.order = [q for q in self.order if q not in sub] + pars
        self.new += pars

    def controls(self, t, x, p, th, par):
        """values of all the controls; par: values in the order of the control parameters"""
        env = {"t": t}
        env.update(zip(self.xn, x))
        env.update(zip(self.pn, p))
        env.update(zip(self.thn, th))
        env.update(zip(self.order, par))
        done = set(self.order)

        def value(q):
            if q in env:
                return
            for w in gen.expr_vars(self.expr[q]):
                if w not in env:
                    value(w)
            env[q] = gen.evalf(self.expr[q], env)

        for q in self.un:
            value(q)
        return np.array([env[q] for q in self.un])


def model(d):
    sy = gen.Sys(d, min_u=1, max_u=3, max_x=2, max_y=1, nonlin=True)
    m, s = sy.build()
    lp = Loop(d, sy)
    lp.symbols(m, s)
    hist = []
    while True:
        k = lp.pick()
        if k is None or (lp.expr and d.bool()):
            break
        lp.apply(m, *k)
        hist.append(k[0])
        if d.int(0, 3) == 0:
            m = m.get_copy()
            d.label("copied")
    if not lp.expr:
        return
    d.note("%s order=%s %s" % (sy.describe(), lp.order, {q: gen.show(e) for q, e in lp.expr.items()}))
    # refused calls leave everything as it was
    got_before = [v.name() for v in ca.vertsplit(m.u_par)] if m.n_u_par else []
    done = d.choice(sorted(lp.expr))
    check(raises(lambda: m.parametrize_control(lp.sym[done], ca.SX(1.0)), ValueError), "a control was parametrized twice", control=done)
    free = [q for q in lp.un if q not in lp.expr]
    if free:
        check(raises(lambda: m.parametrize_control(lp.sym[free[0]], ca.SX([1.0, 2.0])), ValueError), "a parametrization of another size was accepted")
        check(raises(lambda: m.parametrize_control(ca.vertcat(lp.sym[free[0]], lp.sym[done]), ca.SX([1.0, 2.0])), ValueError), "a control was parametrized twice", control=done)
        check(not m.control_is_parametrized(lp.sym[free[0]]), "a control that is not parametrized is reported as parametrized")
    check(all(m.control_is_parametrized(lp.sym[q]) for q in lp.expr), "a parametrized control is not reported")
    check(list(m.u_names) == lp.un, "names of the controls", got=m.u_names, expected=lp.un)
    check(got_before == lp.order and [v.name() for v in (ca.vertsplit(m.u_par) if m.n_u_par else [])] == lp.order, "control parameters", got=got_before, expected=lp.order)
    # pointwise
    f = ca.Function("f", list(m.all_sym), [m.ode, m.alg, m.u_expr])
    for _ in range(2):
        t, x, y = d.num(-1, 2), sy.vals(d, "x"), sy.vals(d, "y")
        p, th = sy.vals(d, "p"), sy.vals(d, "theta")
        par = np.array(d.vec(len(lp.order), -1.5, 1.5))
        u = lp.controls(t, x, p, th, par)
        ode, alg, ue = f(*[gen.dmv(v) for v in ([t], x, y, p, th, par)])
        r = sy.A @ x + sy.E @ y + sy.B @ u + sy.C @ p + sy.D @ th + sy.c + sy.s * np.sin(sy.w * t)
        if sy.nl:
            r = r + np.array([k * np.sin(x[j]) for j, k in sy.nl])
        check(gen.close(gen.arr(ode), r, 1e-9), "differential equations are not those of the controls' expressions", got=ode, expected=r)
        if sy.n["y"]:
            g = sy.G @ y + sy.H @ x + sy.K @ u + sy.L @ p + sy.M @ th + sy.g + sy.v * np.sin(t)
            check(gen.close(gen.arr(alg), g, 1e-9), "algebraic equations are not those of the controls' expressions", got=alg, expected=g)
        check(gen.close(gen.arr(ue), u, 1e-9), "control expressions", got=ue, expected=u)
    # closed loop
    t0 = d.choice([0.0, 1.0])
    N = d.int(1, 3)
    tf = [t0 + 0.25 * (k + 1) for k in range(N)]
    x0, p = sy.vals(d, "x"), sy.vals(d, "p")
    th = [sy.vals(d, "theta") for _ in range(N)]
    pars = [np.array(d.vec(len(lp.order), -1, 1)) for _ in range(N)]
    kw = {}
    if lp.order:
        kw["u"] = {k: gen.dmv(pars[k]) for k in range(N)}
    if sy.n["p"]:
        kw["p"] = gen.dmv(p)
    if sy.n["theta"]:
        kw["theta"] = gen.thdict(d, N, lambda k: gen.dmv(th[k]))
    res = m.simulate(gen.dmv(x0), tf, t_0=t0, integrator_options={"reltol": 1e-8, "abstol": 1e-9}, **kw)
    x, t, xs, us = x0, t0, [x0], []
    for k in range(N):
        x = sy.solve(x, t, tf[k], lambda tt, xx, k=k: lp.controls(tt, xx, p, th[k], pars[k]), p, th[k])
        t = tf[k]
        xs.append(x)
        us.append(lp.controls(t, x, p, th[k], pars[k]))
    scale = max(1.0, np.max(np.abs(xs)))
    check(gen.close(gen.mat(res.get_entry("x")[1]), np.array(xs).T, 1e-5 * scale), "simulation is not that of the closed loop", got=res.get_entry("x")[1], expected=np.array(xs).T)
    check(gen.close(gen.mat(res.get_entry("u")[1]), np.array(us).T, 1e-4 * scale), "reported controls are not the values of their expressions", got=res.get_entry("u")[1], expected=np.array(us).T)
    d.label("chained" if len(hist) > 1 else "one call")
    d.label("all parametrized" if len(lp.expr) == len(lp.un) else "some parametrized")
    d.interesting()


def problem(d):
    """costs and constraints of an optimal control problem"""
    o = ocpgen.Ocp(d, min_u=1, max_u=2, opts=False, delta=False)
    o.prepare()
    ocp = o.build()
    m = ocp.model
    lp = Loop(d, o.sy)
    lp.sym = o.sym
    while True:
        k = lp.pick()
        if k is None or (lp.expr and d.bool()):
            break
        lp.apply(ocp, *k)
    d.note("%s order=%s %s" % (o.describe(), lp.order, {q: gen.show(e) for q, e in lp.expr.items()}))
    f = ca.Function("f", list(m.all_sym), [ca.SX(ocp.L), ca.SX(ocp.V), ca.SX(ocp.S), ca.vertcat(ocp.g_ineq), ca.vertcat(ocp.g_eq), m.u_expr, m.ode])
    for _ in range(2):
        t, x, y = d.num(-1, 2), o.sy.vals(d, "x"), o.sy.vals(d, "y")
        P = {q: d.num(-1.5, 1.5) for q in o.pn}
        T = {q: d.num(-1.5, 1.5) for q in o.thn}
        par = np.array(d.vec(len(lp.order), -1.5, 1.5))
        u = lp.controls(t, x, [P[q] for q in o.base_p], [T[q] for q in o.base_th], par)
        env = o.env(t, x, y, u, P, T)
        L, V, S, gi, ge, ue, ode = f(*[gen.dmv(v) for v in ([t], x, y, [P[q] for q in o.pn], [T[q] for q in o.thn], par)])
        for nm, got, e in (("L", L, o.L), ("V", V, o.V), ("S", S, o.S)):
            check(gen.close(gen.arr(got), [gen.evalf(e, env)], 1e-8), "%s does not use the expressions of the controls" % nm, got=got, expected=gen.evalf(e, env))
        if o.ineq:
            exp = [gen.evalf(c["e"], env) - P[c["p"]] for c in o.ineq]
            check(gen.close(gen.arr(gi), exp, 1e-8), "inequalities do not use the expressions of the controls", got=gi, expected=exp)
        if o.eq:
            exp = [gen.evalf(q["e"], env) - T[q["th"]] if q["kind"] == "theta" else o.timefun(q, t) for q in o.eq]
            check(gen.close(gen.arr(ge), exp, 1e-8), "equalities do not use the expressions of the controls", got=ge, expected=exp)
        check(gen.close(gen.arr(ue), u, 1e-9), "control expressions", got=ue, expected=u)
        r = o.f_full(t, x, y, u, np.array([P[q] for q in o.base_p]), np.array([T[q] for q in o.base_th]))
        check(gen.close(gen.arr(ode), r, 1e-9), "equations of the problem's model", got=ode, expected=r)
    d.interesting()


def twin(d):
    """solving a problem with a parametrized control equals solving the problem written with the expression"""
    from yaocptool.methods import DirectMethod
    from yaocptool.modelling import OptimalControlProblem, SystemModel

    sy = gen.Sys(d, min_u=1, max_u=2, max_x=2, max_y=1, nonlin=False)
    n = sy.n
    lp = Loop(d, sy)
    gain = d.bool()
    W = lambda: d.choice([0.5, 1.0, 2.0])
    alln = lp.xn + lp.yn + lp.un
    names_opt = ["k0"] if gain else []
    L = ocpgen.plus([ocpgen.sq(("-", ("v", u), ("c", d.num(-1, 1, 0.5))), W()) for u in lp.un] + [ocpgen.sq(("v", x), W()) for x in lp.xn]
                    + [ocpgen.sq(("-", ("v", q), ("c", d.num(-1, 1, 0.5))), W()) for q in names_opt])
    V = ocpgen.plus([ocpgen.sq(ocpgen.aff(d, lp.xn), W()) for _ in range(d.int(0, 1))])
    con = ocpgen.aff(d, alln, "t") if d.bool() else None
    sub = d.perm(lp.un)[:d.int(1, len(lp.un))]
    rest = [q for q in lp.un if q not in sub]
    base = lp.xn + lp.pn + lp.thn + (rest if d.bool() else [])
    ex = {q: (("+", ocpgen.aff(d, base, "t", 0.5), ("v", "k0")) if gain else ocpgen.aff(d, base, "t", 0.5)) for q in sub}
    N, t0, dt = d.int(1, 3), d.choice([0.0, 1.0]), 0.3
    x0 = sy.vals(d, "x")
    p, th = sy.vals(d, "p"), [sy.vals(d, "theta") for _ in range(N)]
    scheme = d.choice(["collocation", "multiple-shooting"])
    deg, dc = d.int(1, 3), d.weighted([(2, 1), (1, 2)])
    d.note("%s L=%s sub=%s" % (sy.describe(), gen.show(L), {q: gen.show(e) for q, e in ex.items()}))
    out = []
    for direct in (True, False):
        m = SystemModel(name="m")
        s = {"x": [m.create_state(q) for q in lp.xn], "y": [m.create_algebraic_variable(q) for q in lp.yn]}
        s["u"] = [m.create_control(q) if (not direct or q in rest) else None for q in lp.un]
        s["p"] = [m.create_parameter(q) for q in lp.pn]
        s["theta"] = [m.create_theta(q) for q in lp.thn]
        k0 = m.create_parameter("k0") if gain else None
        env = {"t": m.t, "k0": k0}
        for k, names in (("x", lp.xn), ("y", lp.yn), ("u", lp.un), ("p", lp.pn), ("theta", lp.thn)):
            env.update({q: v for q, v in zip(names, s[k]) if v is not None})
        if direct:
            for i, q in enumerate(lp.un):
                if q in ex:
                    s["u"][i] = env[q] = ca.SX(gen.to_sx(ex[q], env))
        m.include_equations(ode=sy.ode_sx(s, m.t), x=s["x"])
        if n["y"]:
            m.include_equations(alg=sy.alg_sx(s, m.t))
        ocp = OptimalControlProblem(m, x_0=gen.dmv(x0), t_0=t0, t_f=t0 + N * dt, L=gen.to_sx(L, env), V=gen.to_sx(V, env))
        if con is not None:
            ocp.include_time_inequality(gen.to_sx(con, env) - 50.0)
        if gain:
            ocp.set_parameter_as_optimization_parameter(k0, new_p_opt_min=[-2.0], new_p_opt_max=[2.0])
        if not direct:
            ocp.parametrize_control(ca.vertcat(*[env[q] for q in sub]), ca.vertcat(*[gen.to_sx(ex[q], env) for q in sub]))
        kw = {} if scheme == "collocation" else {"integrator_type": "collocation"}
        meth = DirectMethod(ocp, finite_elements=N, degree=deg, degree_control=dc, discretization_scheme=scheme, initial_guess_heuristic="problem_info", **kw)
        a = {}
        if n["p"] or gain:
            a["p"] = gen.dmv(list(p) + ([0.0] if gain else []))
        if n["theta"]:
            a["theta"] = gen.thdict(d, N, lambda el: gen.dmv(th[el]))
        r = meth.solve(**a)
        names = list(r.x_names)
        x = np.array([gen.arr(e[0])[[names.index(q) for q in lp.xn]] for e in r.x_data["values"]])
        ur = np.array([[gen.arr(v)[list(r.u_names).index(q)] for q in rest] for e in r.u_data["values"] for v in e]) if rest else np.zeros(0)
        out.append((ocpgen.solved(r, scheme == "collocation"), float(r.objective_opt_problem), x, ur, float(r.p_opt) if gain else 0.0))
    (s1, j1, x1, u1, k1), (s2, j2, x2, u2, k2) = out
    if not s1:
        d.label("twin not solved")
        return
    check(s2, "the problem with the parametrized control was not solved, the one with the expression was")
    check(gen.close([j2], [j1], 1e-5 * max(1.0, abs(j1))), "objective with a parametrized control", got=j2, expected=j1)
    check(gen.close(x2, x1, 1e-3), "states with a parametrized control", got=x2, expected=x1)
    if rest:
        check(gen.close(u2, u1, 1e-2), "the controls that stayed free", got=u2, expected=u1)
    if gain:
        check(gen.close([k2], [k1], 1e-2), "optimised gain", got=k2, expected=k1)
    d.label(scheme)
    d.label("gain optimised" if gain else "no gain")
    d.label("free controls remain" if rest else "no control left")
    d.interesting()


def polynomial(d):
    """the controls of a direct method are the (piecewise) polynomials through the reported values"""
    from yaocptool.methods import DirectMethod

    o = ocpgen.LQ(d, cons=False, opts=False, delta=False, dc=d.int(1, 4), bounds=False)
    if o.col:
        o.dc = d.int(1, 4)
    if d.int(0, 9) == 7:
        o.dc = d.int(5, 7)
    o.prepare()
    o.build()
    m = o.method(nlpsol_opts={"ipopt.max_iter": 5}, initial_guess_heuristic="problem_info", **({} if o.col else {"integrator_type": "collocation"}))
    a = {}
    if o.pn:
        a["p"] = o.p_arg(o.P)
    if o.thn:
        a["theta"] = o.th_arg(o.TH)
    r = m.solve(**a)
    mod = m.problem.model
    nu = len(o.un)
    check(mod.n_u_par == nu * o.dc and mod.u_expr.numel() == nu, "number of control parameters", got=mod.n_u_par, expected=nu * o.dc)
    f = ca.Function("f", [mod.tau, mod.u_par], [mod.u_expr])
    v = gen.arr(r.raw_solution_dict["x"])
    idx = m.discretizer.unpack_decision_variables(ca.DM(list(range(v.size))))[2]
    c = ocpgen.radau(o.dc)
    d.note(o.describe())
    for el in range(o.N):
        rep = np.array([gen.arr(w) for w in r.u_data["values"][el]])
        check(rep.shape == (o.dc, nu), "number of reported control values", got=rep.shape, expected=(o.dc, nu))
        times = [o.time(el, 0.0)] if o.dc == 1 else [o.time(el, k) for k in c]
        check(gen.close(np.array(r.u_data["time"][el], dtype=float), times, 1e-9), "times of the reported controls", got=r.u_data["time"][el], expected=times)
        raw = np.array([v[[int(k) for k in gen.arr(w)]] for w in idx[el]])
        check(gen.close(rep, raw, 1e-12), "reported controls are not the decision variables", got=rep, expected=raw)
        par = gen.dmv(raw.flatten())
        for tau in list(c) + [0.0, d.num(0, 1, 0.125)]:
            exp = raw[0] if o.dc == 1 else ocpgen.lagrange(c, tau) @ raw
            check(gen.close(gen.arr(f(float(tau), par)), exp, 1e-8 * max(1.0, np.max(np.abs(raw)))), "the control is not the polynomial through its values", tau=tau, got=f(float(tau), par), expected=exp)
        # in time
        e = mod.convert_expr_from_tau_to_time(mod.u_expr, o.time(el, 0.0), o.time(el, 1.0))
        ft = ca.Function("ft", [mod.t, mod.u_par], [e])
        tau = d.num(0, 1, 0.125)
        exp = raw[0] if o.dc == 1 else ocpgen.lagrange(c, tau) @ raw
        check(gen.close(gen.arr(ft(o.time(el, tau), par)), exp, 1e-8 * max(1.0, np.max(np.abs(raw)))), "the control as a function of time", tau=tau, got=ft(o.time(el, tau), par), expected=exp)
    d.label("degree_control=%d" % o.dc)
    d.label(o.scheme)
    d.interesting()


FAMILIES = [
    Family("model", model, 400, 4000, shards=3, tshards=8),
    Family("problem", problem, 400, 4000, shards=2, tshards=8),
    Family("twin", twin, 160, 1500, shards=3, tshards=8),
    Family("polynomial", polynomial, 200, 2000, shards=3, tshards=4),
]
