"""C25: the solver starts from the declared, given or simulated point"""
import casadi as ca
import gen
import numpy as np
import ocpgen
from core import Family, check
from props import c09
from scipy.integrate import solve_ivp

RULE = ("random problems (states, algebraic variables, controls, parameters, thetas, optimization parameters/thetas) x scheme x degrees x which of u_guess, y_guess, last_u are declared "
        "and which of u, p, theta are given; both guess builders, the decision vector a solver with no iterations returns, and the guess of a solve with a given vector or solution are "
        "compared with an own placement of the declared values / an own simulation (scipy) in the decision vector. Non-trivial: more than one element and at least one of controls of degree > 1, "
        "algebraic variables, parameters, thetas, an own guess model; for the indirect method: final equalities, algebraic variables or a cost state")


def piece(o, x, c, ta, tb, el, u, P, TH):
    """states, cost and algebraic values at tb of the model started at (x, c) at ta under the constant control u"""
    sy, nx = o.sy, o.sy.n["x"]
    p, th = o.pv(P), o.thv(TH[el])

    def F(t, z):
        y = sy.yval(t, z[:nx], u, p, th)
        return np.concatenate([sy.f(t, z[:nx], u, p, th), [gen.evalf(o.L, o.env(t, z[:nx], y, u, P, TH[el]))]])

    r = solve_ivp(F, (ta, tb), np.concatenate([x, [c]]), method="DOP853", rtol=1e-10, atol=1e-11)
    z = r.y[:, -1]
    return z, sy.yval(tb, z[:nx], u, p, th)


def simulated(o, u, P, TH, scale=None):
    """the expected guess; with scale the model is simulated without the cost state and its states and algebraic variables are multiplied by scale after every piece"""
    nx = o.sy.n["x"]
    z = np.concatenate([o.x0, [0.0]])
    X, Y = [], []
    for el in range(o.N):
        taus = ocpgen.radau(o.degree) if o.col else [1.0]
        xs, ys, a = [z], [], 0.0
        for tau in taus:
            z, y = piece(o, z[:nx], z[nx], o.time(el, a), o.time(el, tau), el, u, P, TH)
            if scale is not None:
                z, y = np.concatenate([z[:nx] * scale, [0.25]]), y * scale
            xs.append(z)
            ys.append(y)
            a = tau
        X.append(xs if o.col else xs[:1])
        Y.append(ys)
    if not o.col:
        X.append([z])
    return X, Y


def case(d):
    o = ocpgen.Ocp(d, cons=False, bounds=False, max_el=4, long=True)
    o.prepare()
    ocp = o.build()
    n = o.sy.n
    own = d.int(0, 3) == 0  # a separate model for the guess
    ug = o.sy.vals(d, "u") if n["u"] and d.bool() else None
    yg = o.sy.vals(d, "y") if n["y"] and d.bool() else None
    lu = o.last_u if o.last_in_problem else None
    if n["u"] and lu is None and o.last_u is None and d.bool():
        lu = o.sy.vals(d, "u")
        ocp.last_u = gen.dmv(lu)
    if ug is not None:
        ocp.u_guess = gen.dmv(ug) if d.bool() else [float(v) for v in ug]
    if yg is not None:
        ocp.y_guess = gen.dmv(yg) if d.bool() else [float(v) for v in yg]
    heur = d.choice(["simulation", "problem_info", None])  # the documented default is the simulation
    kw = {"nlpsol_opts": {"ipopt.max_iter": 0}}
    if heur is not None:
        kw["initial_guess_heuristic"] = heur
    if not o.col:
        kw["integrator_type"] = "collocation" if o.yn else d.choice(["collocation", "rk"])
    scale = None
    if own:
        scale = d.choice([1.0, 0.5, -1.0])
        gm, _ = o.sy.build(name="guess")
        npar = n["p"] + n["theta"] + n["u"]
        calls = []

        def inp(x_0, t_0, t_f, p, y_0):
            calls.append((t_0, t_f))
            return dict(x_0=x_0[[mx.index(q) for q in o.xn]], t_0=t_0, t_f=t_f, p=p[:npar], y_0=y_0)

        def out(res):
            v = ca.DM.zeros(n["x"] + 1)
            v[:] = 0.25
            for k, q in enumerate(o.xn):
                v[mx.index(q)] = res["xf"][k] * scale
            return {"xf": v, "zf": res["zf"] * scale}

        kw.update(initial_guess_model=gm, initial_guess_in_transform=inp, initial_guess_out_transform=out)
    meth = o.method(**kw)
    meth.create_optimization_problem()
    mx = meth.problem.model.x_names
    o.layout(meth)
    d.label(o.scheme)
    d.label("own guess model" if own else "the problem's model")
    d.interesting(o.N > 1 and bool((o.dc > 1 and n["u"]) or n["y"] or n["p"] or n["theta"] or own))
    d.note(o.describe() + " u_guess=%s y_guess=%s last_u=%s heuristic=%s own=%s" % (ug, yg, lu, heur, scale))
    P, TH = o.P, o.TH
    zero = lambda k: np.zeros(n[k])
    u_sim = ug if ug is not None else lu if lu is not None else zero("u")
    const = lambda u: [[u] * o.dc if n["u"] else [] for _ in range(o.N)]
    grid = (lambda v, k: [[v] * k for _ in range(o.N)])

    def info(P, TH):
        z = np.concatenate([o.x0, [0.0]])
        X = grid(z, o.degree + 1) if o.col else [[z] for _ in range(o.N + 1)]
        Y = grid(yg if yg is not None else zero("y"), o.degree if o.col else 1)
        return o.pack(X, Y, const(ug if ug is not None else zero("u")), P, TH)

    def sim(u, P, TH, scale=None):
        X, Y = simulated(o, u, P, TH, scale)
        return o.pack(X, Y, const(u), P, TH)

    def same(got, exp, what, tol):
        check(got.numel() == exp.size and gen.close(gen.arr(got), exp, tol), what, got=got, expected=exp)

    dz = meth.discretizer
    pa, ta = o.p_arg(P), o.th_arg(TH)
    if abs(max(np.max(np.abs(v)) for e in simulated(o, u_sim, P, TH, scale)[0] for v in e)) > 50:
        d.label("large")
        return
    ST = 3e-4
    # the builders
    zP, zTH = {q: 0.0 for q in o.pn}, [{q: 0.0 for q in o.thn} for _ in range(o.N)]
    for _ in range(d.int(1, 2)):
        gp, gth = d.bool(), d.bool()
        args = {}
        if gp:
            args["p"] = pa
        if gth:
            args["theta"] = ta
        same(dz.create_initial_guess(**args), info(P if gp else zP, TH if gth else zTH), "guess from the declared values", 1e-12)
    gp, gth = d.int(0, 2) > 0, d.int(0, 2) > 0
    args = {}
    if gp:
        args["p"] = pa
    if gth:
        args["theta"] = ta
    u_arg = o.sy.vals(d, "u") if n["u"] and d.bool() else None
    if u_arg is not None:
        args["u"] = gen.dmv(u_arg)
    if not n["y"] or yg is not None:  # (the algebraic equations are linear, but the integrator wants a guess of the right size)
        pass
    same(dz.create_initial_guess_with_simulation(**args), sim(u_arg if u_arg is not None else u_sim, P if gp else zP, TH if gth else zTH), "guess by simulation", ST)
    check(gen.close(gen.arr(pa), [P[q] for q in o.pn], 0) if o.pn else True, "p was changed")
    check(all(gen.close(gen.arr(ta[el]), [TH[el][q] for q in o.thn], 0) for el in range(o.N)) if o.thn else True, "theta was changed")
    # packing
    v = np.array(d.vec(o.nv, -2, 2)) if o.nv < 40 else np.arange(o.nv) * 0.125
    if o.col:
        xa, ya = dz.unpack_decision_variables(gen.dmv(v))[:2]
        xb, yb = dz.unpack_decision_variables(gen.dmv(v), all_subinterval=False)[:2]
        for what, a, b in (("states", xa[: o.N], xb[: o.N]), ("algebraic variables", ya, yb)):
            check(len(a) == len(b) and all(gen.close(gen.arr(p[0]), gen.arr(q), 0) for p, q in zip(a, b)), "first point of each element: " + what, got=b)
        same(ca.DM(dz.repack_decision_variables(*dz.unpack_decision_variables(gen.dmv(v)))), v, "unpacked and packed again", 0)
    # what the solver starts from
    skw = {}
    if o.pn and (len(o.popt) < len(o.pn) or d.bool()):
        skw["p"] = d.choice([pa, [float(P[q]) for q in o.pn]] + ([float(P[o.pn[0]])] if len(o.pn) == 1 else []))
    if o.thn and (len(o.thopt) < len(o.thn) or d.bool()):
        skw["theta"] = ta
    if o.last_u is not None and not o.last_in_problem:
        skw["last_u"] = gen.dmv(o.last_u)
    sP, sTH = P if "p" in skw else zP, TH if "theta" in skw else zTH
    if own:
        del calls[:]
    r = meth.solve(**skw)
    raw = r.raw_decision_variables
    if heur == "problem_info":
        same(raw, info(sP, sTH), "start of a solve (declared values)", 1e-9)
    else:
        same(raw, sim(u_sim, sP, sTH, scale), "start of a solve (simulation)", ST)
        if own:
            ts = [(o.time(el, a), o.time(el, b)) for el in range(o.N) for a, b in zip([0.0] + list(ocpgen.radau(o.degree) if o.col else [1.0])[:-1], ocpgen.radau(o.degree) if o.col else [1.0])]
            check(len(calls) == len(ts) and gen.close(np.array(calls, float).flatten(), np.array(ts).flatten(), 1e-9), "simulated pieces", got=calls, expected=ts)
    r = meth.solve(initial_guess=gen.dmv(v), **skw)
    same(r.raw_decision_variables, v, "start of a solve (given vector)", 1e-9)
    w = v + 0.5
    r = meth.solve(initial_guess_dict={"x": gen.dmv(w), "lam_x": ca.DM.zeros(o.nv), "lam_g": ca.DM.zeros(r.raw_solution_dict["g"].numel())}, **skw)
    same(r.raw_decision_variables, w, "start of a solve (given solution)", 1e-9)


def declared(d):
    """the guess built from the declared values only"""
    o = ocpgen.Ocp(d, costs=False, cons=False, bounds=False, max_el=4, max_x=3, max_y=2, nonlin=False, timevar=False)
    o.prepare()
    ocp = o.build()
    n = o.sy.n
    ug = o.sy.vals(d, "u") if n["u"] and d.bool() else None
    yg = o.sy.vals(d, "y") if n["y"] and d.bool() else None
    if ug is not None:
        ocp.u_guess = gen.dmv(ug)
    if yg is not None:
        ocp.y_guess = gen.dmv(yg)
    kw = {} if o.col else {"integrator_type": "collocation"}
    meth = o.method(initial_guess_heuristic="problem_info", **kw)
    meth.create_optimization_problem()
    o.layout(meth)
    gp, gth = d.int(0, 3) > 0, d.int(0, 3) > 0
    args = {}
    if gp:
        args["p"] = o.p_arg(o.P)
    if gth:
        args["theta"] = o.th_arg(o.TH)
    d.label(o.scheme)
    d.label("optimized thetas" if len(o.thopt) > 1 else "optimized theta" if o.thopt else "no optimized theta")
    d.interesting(o.N > 1 and bool(o.popt or o.thopt or ug is not None or yg is not None))
    d.note(o.describe() + " u_guess=%s y_guess=%s p=%s theta=%s" % (ug, yg, o.P if gp else None, o.TH if gth else None))
    z = np.concatenate([o.x0, [0.0]])
    X = [[z] * (o.degree + 1) for _ in range(o.N)] if o.col else [[z] for _ in range(o.N + 1)]
    Y = [[yg if yg is not None else np.zeros(n["y"])] * (o.degree if o.col else 1) for _ in range(o.N)]
    U = [[ug if ug is not None else np.zeros(n["u"])] * o.dc if n["u"] else [] for _ in range(o.N)]
    exp = o.pack(X, Y, U, o.P if gp else {q: 0.0 for q in o.pn}, o.TH if gth else [{q: 0.0 for q in o.thn} for _ in range(o.N)])
    for _ in range(2):
        got = meth.discretizer.create_initial_guess(**args)
        check(got.numel() == exp.size and gen.close(gen.arr(got), exp, 1e-12), "guess from the declared values", got=got, expected=exp)


def indirect(d):
    """the indirect method: states start at the declared initial state, adjoints and multipliers at zero"""
    from yaocptool.methods import IndirectMethod

    o = c09.Ind(d)
    o.prepare()
    ocp = o.build()
    n = o.sy.n
    yg = o.sy.vals(d, "y") if n["y"] and d.bool() else None
    if yg is not None:
        ocp.y_guess = gen.dmv(yg)
    if d.bool():
        ocp.u_guess = gen.dmv(o.sy.vals(d, "u"))  # of no effect: the controls are no decision variables
    cost = d.bool()
    heur = d.choice([None, "problem_info", "simulation"])
    kw = {"nlpsol_opts": {"ipopt.max_iter": 0}}
    if not o.col:
        kw["integrator_type"] = "collocation" if o.yn else d.choice(["collocation", "rk"])
    m = IndirectMethod(ocp, finite_elements=o.N, degree=o.degree, discretization_scheme=o.scheme, create_cost_state=cost, **kw)
    if heur is not None:
        m.initial_guess_heuristic = heur
    m.create_optimization_problem()
    dz, nv = m.discretizer, m.opt_problem.x.numel()
    d.label(o.scheme)
    d.label("final equalities" if o.h_final else "no final equalities")
    d.interesting(bool(o.N > 1 and (o.h_final or n["y"] or cost)))
    d.note("indirect %s h_final=%s y_guess=%s cost state=%s heuristic=%s" % (o.describe(), [gen.show(e) for e in o.h_final], yg, cost, heur))
    xn, yn = list(m.problem.model.x_names), list(m.problem.model.y_names)
    nX, nY, nh = 2 * n["x"] + cost, 2 * n["y"], len(o.h_final)
    shape = (o.N * (o.degree + 1) * nX + o.N * o.degree * nY) if o.col else (o.N + 1) * nX + o.N * nY
    check(nv == shape + nh, "size of the decision vector", got=nv, expected=shape + nh)
    ix, iy = [xn.index(q) for q in o.xn], [yn.index(q) for q in o.yn]
    il = [i for i, q in enumerate(xn) if i not in ix and "lamb" in q]
    x_0 = np.zeros(nX)
    x_0[ix] = o.x0
    y_0 = np.zeros(nY)
    if yg is not None:
        y_0[iy] = yg

    def parts(v):
        x, y, u, eta, p_opt, th_opt = dz.unpack_decision_variables(ca.DM(list(range(nv))))
        v = gen.arr(v)
        check(v.size == nv, "size of the guess", got=v.size, expected=nv)
        I = lambda k: [int(i) for i in gen.arr(k)] if k.numel() else []
        return [[v[I(k)] for k in e] for e in x], [[v[I(k)] for k in e] for e in y], v[I(eta)], sorted(i for part in (x, y) for e in part for k in e for i in I(k)) + I(eta)

    def info(v, what):
        X, Y, eta, seen = parts(v)
        check(sorted(set(seen)) == list(range(nv)), "every decision variable is unpacked", got=seen)
        check(len(eta) == nh and not np.any(eta), what + ": multipliers of the final equalities", got=eta)
        for e in X:
            for z in e:
                check(gen.close(z, x_0, 1e-9), what + ": states and adjoints", got=z, expected=x_0)
        for e in Y:
            for z in e:
                check(gen.close(z, y_0, 1e-9), what + ": algebraic variables", got=z, expected=y_0)

    def sim(v, P, TH, what):
        X, Y, eta, _ = parts(v)
        check(len(eta) == nh and not np.any(eta), what + ": multipliers of the final equalities", got=eta)
        z = np.concatenate([o.x0, np.zeros(n["x"] + 1)])
        order = lambda z: np.concatenate([z[:n["x"]], z[n["x"]:2 * n["x"]]])
        taus = list(ocpgen.radau(o.degree)) if o.col else [1.0]
        for el in range(o.N):
            a = 0.0
            exp = [z]
            for tau in taus:
                z = o.flow(el, z, P, TH, a, tau)
                if np.max(np.abs(z)) > 30:
                    d.label("large")
                    return
                exp.append(z)
                a = tau
            got = [np.concatenate([g[ix], g[il]]) for g in X[el]]
            for g, e in zip(got, exp):
                check(gen.close(g, order(e), 1e-3 * max(1.0, np.max(np.abs(e)))), what + ": states and adjoints", element=el, got=g, expected=order(e))
            if not o.col and el == o.N - 1:
                g = np.concatenate([X[o.N][0][ix], X[o.N][0][il]])
                check(gen.close(g, order(z), 1e-3 * max(1.0, np.max(np.abs(z)))), what + ": final states and adjoints", got=g, expected=order(z))

    info(dz.create_initial_guess(), "guess from the declared values")
    v = np.array(d.vec(nv, -2, 2)) if nv < 40 else np.arange(nv) * 0.125
    if o.col:
        got = ca.DM(dz.repack_decision_variables(*dz.unpack_decision_variables(gen.dmv(v))))
        check(got.numel() == nv and gen.close(gen.arr(got), v, 0), "unpacked and packed again", got=got, expected=v)
    a = {}
    if o.pn:
        a["p"] = o.p_arg(o.P)
    if o.thn:
        a["theta"] = o.th_arg(o.TH)
    r = m.solve(**a)
    if heur == "simulation":
        sim(r.raw_decision_variables, o.P, o.TH, "start of a solve (simulation)")
    else:
        info(r.raw_decision_variables, "start of a solve (declared values)")
    r = m.solve(initial_guess=gen.dmv(v), **a)
    check(gen.close(gen.arr(r.raw_decision_variables), v, 1e-9), "start of a solve (given vector)", got=r.raw_decision_variables, expected=v)


FAMILIES = [Family("guess", case, 400, 4000, shards=6, tshards=8, budget=150),
            Family("declared", declared, 600, 6000, shards=2, tshards=6, budget=100),
            Family("indirect", indirect, 150, 1500, shards=2, tshards=6, budget=100)]
