"""C03: simulation returns the solution of the declared equations"""
import casadi as ca
import gen
import numpy as np
from core import Discard, Family, check, raises
from yaocptool.modelling import OptimalControlProblem

RULE = ("random index-1 DAE/ODE systems (linear plus sinusoidal state and time terms) with random x_0, p, per-element theta and controls, time grids "
        "with t_0 != 0, integrators; oracle: scipy DOP853 on an independent numpy right-hand side with y eliminated by a linear solve; "
        "metamorphic splitting/shift relations. Non-trivial: system has at least one of y, u, p, theta or >1 element or t_0 != 0")

TOL = {"implicit": 2e-4, "cvodes": 2e-4, "idas": 2e-4, "collocation": 1e-4, "rk": 2e-4, "explicit": 2e-4, None: 2e-4}


def grid(d, t0, max_el=4):
    n = d.int(1, max_el)
    steps = [0.125, 0.25, 0.5, 0.75]
    if d.int(0, 19) == 7:
        n, steps = d.int(11, 12), [0.125]
        d.label("many elements")
    out, t = [], t0
    for _ in range(n):
        t = t + d.choice(steps)
        out.append(t)
    return out


def form(d, a):
    """list or DM"""
    if len(a) == 0:
        return gen.dmv(a)
    return [float(v) for v in a] if d.bool() else gen.dmv(a)


def model(d):
    sy = gen.Sys(d)
    t0 = d.choice([0.0, 0.0, 1.0, -0.5, 2.25, None])
    if t0 is None:  # ends at time zero
        tf = grid(d, 0.0)
        t0, tf = -tf[-1], [t - tf[-1] for t in tf]
    else:
        tf = grid(d, t0)
    n = len(tf)
    m, s = sy.build()
    x0, p = sy.vals(d, "x"), sy.vals(d, "p")
    th = [sy.vals(d, "theta") for _ in range(n)]
    per_el = d.bool()
    us = [sy.vals(d, "u") for _ in range(n)] if per_el else [sy.vals(d, "u")] * n
    # some controls replaced by an expression of time, theta, p, a state and a free parameter
    ufun = None
    if sy.n["u"] and d.int(0, 2) == 0:
        sub = d.subset(list(range(sy.n["u"])), 1)
        co = [d.vec(5, -1, 1, 0.25) for _ in sub]
        pars = [ca.SX.sym("k%d" % i) for i in sub]
        ex = [c[0] * q + c[1] * m.t + (c[2] * s["theta"][-1] if s["theta"] else 0) + (c[3] * s["p"][-1] if s["p"] else 0) + c[4] * s["x"][-1]
              for c, q in zip(co, pars)]
        m.parametrize_control(ca.vertcat(*[s["u"][i] for i in sub]), ca.vertcat(*ex), ca.vertcat(*pars))
        order = [i for i in range(sy.n["u"]) if i not in sub] + sub  # free controls first, then the new parameters
        d.label("parametrized control")

        def ufun(k, t, x):
            u = np.array(us[k], float)
            for i, c in zip(sub, co):
                u[i] = c[0] * us[k][i] + c[1] * t + (c[2] * th[k][-1] if s["theta"] else 0) + (c[3] * p[-1] if s["p"] else 0) + c[4] * x[-1]
            return u
    else:
        order = list(range(sy.n["u"]))
    types = [None, "implicit", "collocation", "idas"] + ([] if sy.n["y"] else ["rk", "explicit", "cvodes"])
    it = d.choice(types)
    d.label(str(it))
    d.label("dae" if sy.n["y"] else "ode")
    d.interesting(sum(sy.n.values()) > sy.n["x"] or n > 1 or t0 != 0)
    kw = dict(x_0=form(d, x0), t_f=tf if (n > 1 or d.bool()) else tf[0])
    if t0 != 0 or d.bool():
        kw["t_0"] = t0
    if sy.n["u"]:
        kw["u"] = gen.thdict(d, n, lambda k: gen.dmv(us[k][order])) if per_el else form(d, us[0][order])
    if sy.n["p"]:
        kw["p"] = form(d, p)
    if sy.n["theta"]:
        kw["theta"] = gen.thdict(d, n, lambda k: gen.dmv(th[k]))
    if it is not None:
        kw["integrator_type"] = it
    if sy.n["y"] and d.bool():
        kw["y_0"] = form(d, np.zeros(sy.n["y"]))
    if d.bool():
        kw["integrator_options"] = {"name": "my_integrator"}
    d.note(sy.describe())
    d.note("t0=%s tf=%s it=%s" % (t0, tf, it))
    # oracle
    xs, ys, uend = [x0], [], []
    x, t = x0, t0
    for k in range(n):
        x = sy.solve(x, t, tf[k], (lambda tt, xx, k=k: ufun(k, tt, xx)) if ufun else us[k], p, th[k])
        t = tf[k]
        xs.append(x)
        uend.append(ufun(k, t, x) if ufun else us[k])
        ys.append(sy.yval(t, x, uend[k], p, th[k]))
    if ufun and max(np.max(np.abs(q), initial=0.0) for q in xs + ys) > 100:
        raise Discard()  # the feedback made the system unstable: the integrators' Newton iterations give up (absolute tolerances)
    res = m.simulate(**kw)
    tol = TOL[it]
    tx, vx = res.get_entry("x")
    check(gen.close(gen.arr(tx), [t0] + tf, 1e-9), "times of the states", got=tx, expected=[t0] + tf)
    check(gen.mat(vx).shape == (sy.n["x"], n + 1), "shape of the state data", got=vx.shape)
    check(gen.close(gen.mat(vx), np.array(xs).T, tol), "simulated states differ from the solution", got=vx, expected=np.array(xs).T, integrator=it)
    check(len(res.x) == n + 1 and gen.close(gen.arr(res.x[-1]), xs[-1], tol), "result.x")
    check(gen.close(gen.arr(res.t), [t0] + tf, 1e-9), "result.t")
    fc = res.final_condition()
    check(gen.close(gen.arr(fc["x"]), xs[-1], tol), "final condition")
    if sy.n["y"]:
        ty, vy = res.get_entry("y")
        check(gen.close(gen.arr(ty), tf, 1e-9), "times of the algebraic variables", got=ty, expected=tf)
        check(gen.close(gen.mat(vy), np.array(ys).T, 10 * tol), "algebraic values differ from the solution", got=vy, expected=np.array(ys).T, integrator=it)
        check(gen.close(gen.arr(fc["y"]), ys[-1], 10 * tol), "final condition y")
    if sy.n["u"]:
        tu, vu = res.get_entry("u")
        check(gen.close(gen.arr(tu), tf, 1e-9), "times of the controls", got=tu, expected=tf)
        check(gen.close(gen.mat(vu), np.array(uend).T, 10 * tol if ufun else 1e-9), "reported controls are not the applied ones", got=vu, expected=np.array(uend).T)
    check((res.n_x, res.n_y, res.n_u) == (sy.n["x"], sy.n["y"], sy.n["u"]), "sizes in the result")
    check(res.x_names == m.x_names and res.y_names == m.y_names and res.u_names == m.u_names, "names in the result")
    check(float(res.t_0) == t0 and float(res.t_f) == tf[-1] and res.finite_elements == n, "t_0/t_f/finite_elements of the result",
          got=(res.t_0, res.t_f, res.finite_elements))


def dae_simulate(d):
    """DAESystem.simulate directly"""
    sy = gen.Sys(d)
    m, s = sy.build()
    dae = m.get_dae_system()
    t0 = d.choice([0.0, 1.5, -1.0])
    tf = t0 + d.choice([0.25, 0.5, 1.0, 1.5])
    x0, p, th, u = sy.vals(d, "x"), sy.vals(d, "p"), sy.vals(d, "theta"), sy.vals(d, "u")
    par = np.concatenate([p, th, u])
    types = ["implicit", "collocation", "idas"] + ([] if sy.n["y"] else ["rk", "explicit", "cvodes"])
    it = d.choice(types)
    d.label(it)
    d.interesting(sum(sy.n.values()) > sy.n["x"] or t0 != 0)
    d.note(sy.describe())
    opts = {"reltol": 1e-9, "abstol": 1e-9} if it in ("implicit", "idas", "cvodes") else {}
    before = dict(opts)
    kw = {"integrator_options": opts} if (opts and d.bool()) else {}
    if len(par):
        kw["p"] = gen.dmv(par)
    if sy.n["y"] and d.bool():
        kw["y_0"] = gen.dmv(np.ones(sy.n["y"]))
    r = dae.simulate(gen.dmv(x0), tf, t0, integrator_type=it, **kw)
    check(opts == before, "the caller's integrator options were changed", got=opts)
    x = sy.solve(x0, t0, tf, u, p, th)
    tol = 2e-6 if kw.get("integrator_options") else TOL[it]
    check(gen.close(gen.arr(r["xf"]), x, tol), "final state differs from the solution", got=r["xf"], expected=x, integrator=it)
    if sy.n["y"]:
        check(gen.close(gen.arr(r["zf"]), sy.yval(tf, x, u, p, th), 10 * tol), "final algebraic value", got=r["zf"])
    # backward reproduces the start (only asked of the sundials integrators via a forward run of the reversed grid)
    check(raises(lambda: dae.simulate(gen.dmv(x0), t0, t0, **kw)), "simulating an empty interval must be refused")
    check(raises(lambda: dae.simulate(gen.dmv(x0), tf, t0, integrator_type="no_such", **kw)), "unknown integrator must be refused")


def configured(d):
    """integrator options of the configuration are defaults: they apply when nothing is given, given ones win, and neither is changed"""
    from yaocptool import config

    sy = gen.Sys(d, max_y=0)
    m, s = sy.build()
    dae = m.get_dae_system()
    tf = d.choice([0.5, 1.0])
    x0, p, th, u = sy.vals(d, "x"), sy.vals(d, "p"), sy.vals(d, "theta"), sy.vals(d, "u")
    par = np.concatenate([p, th, u])
    kw = {"p": gen.dmv(par)} if len(par) else {}
    coarse = d.int(1, 3)
    old = dict(config.INTEGRATOR_OPTIONS)
    config.INTEGRATOR_OPTIONS["number_of_finite_elements"] = coarse
    try:
        own = {"number_of_finite_elements": 60}
        order = d.perm([0, 1])
        res = {}
        for k in order:
            res[k] = gen.arr(dae.simulate(gen.dmv(x0), tf, 0.0, integrator_type="rk", **(dict(kw, integrator_options=own) if k else kw))["xf"])
        check(own == {"number_of_finite_elements": 60} and config.INTEGRATOR_OPTIONS == dict(old, number_of_finite_elements=coarse), "options were changed", got=(own, config.INTEGRATOR_OPTIONS))
    finally:
        config.INTEGRATOR_OPTIONS.clear()
        config.INTEGRATOR_OPTIONS.update(old)
    x, t, h = np.array(x0, float), 0.0, tf / coarse
    F = lambda t, x: np.asarray(sy.f(t, x, u, p, th), float)
    for _ in range(coarse):
        k1 = F(t, x)
        k2 = F(t + h / 2, x + h / 2 * k1)
        k3 = F(t + h / 2, x + h / 2 * k2)
        k4 = F(t + h, x + h * k3)
        x, t = x + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4), t + h
    check(gen.close(res[0], x, 1e-9), "the configured number of steps is not used", got=res[0], expected=x)
    exact = sy.solve(x0, 0.0, tf, u, p, th)
    check(gen.close(res[1], exact, 1e-6), "the given number of steps is not used", got=res[1], expected=exact)
    d.interesting(not gen.close(x, exact, 2e-6))
    d.note(sy.describe() + " steps=%d" % coarse)


def metamorphic(d):
    """splitting an interval, shifting a time-invariant system, and inserting grid points do not change the trajectory"""
    sy = gen.Sys(d, timevar=d.bool())
    m, s = sy.build()
    x0, p, th, u = sy.vals(d, "x"), sy.vals(d, "p"), sy.vals(d, "theta"), sy.vals(d, "u")
    t0 = d.choice([0.0, 1.0, -2.0])
    tf = grid(d, t0, 5)
    n = len(tf)
    kw = dict(u=gen.dmv(u), p=gen.dmv(p), integrator_options={"reltol": 1e-8, "abstol": 1e-9})
    one = m.simulate(gen.dmv(x0), tf[-1], t0, theta={0: gen.dmv(th)}, **kw)
    many = m.simulate(gen.dmv(x0), tf, t0, theta={k: gen.dmv(th) for k in range(n)}, **kw)
    d.interesting(n > 1)
    d.label("elements=%d" % n)
    for k in ("x", "y", "u"):
        check(gen.close(gen.arr(one.final_condition()[k]), gen.arr(many.final_condition()[k]), 1e-5), "splitting the interval changes the result", var=k,
              one=one.final_condition()[k], many=many.final_condition()[k])
    # continue from the middle
    j = d.int(0, n - 1)
    if j < n - 1:
        a = m.simulate(gen.dmv(x0), tf[: j + 1], t0, theta={k: gen.dmv(th) for k in range(j + 1)}, **kw)
        b = m.simulate(a.final_condition()["x"], tf[j + 1:], tf[j], theta={k: gen.dmv(th) for k in range(n - j - 1)}, **kw)
        check(gen.close(gen.arr(b.final_condition()["x"]), gen.arr(one.final_condition()["x"]), 1e-5), "continuing a simulation changes the result")
        a.extend(b)
        ta, va = a.get_entry("x")
        check(gen.arr(ta)[-1] == tf[-1] and float(a.t_f) == tf[-1] and float(a.t_0) == t0, "extended result: times")
        check(a.finite_elements == n, "extended result: finite elements", got=a.finite_elements, expected=n)
        check(gen.mat(va).shape[1] == n + 2, "extended result: number of points")
    if not sy.timevar:
        sh = d.choice([3.0, -1.5])
        c = m.simulate(gen.dmv(x0), [t + sh for t in tf], t0 + sh, theta={k: gen.dmv(th) for k in range(n)}, **kw)
        check(gen.close(gen.mat(c.get_entry("x")[1]), gen.mat(many.get_entry("x")[1]), 1e-5), "time shift changes a time-invariant system")
        d.label("shift")


def ocp_simulate(d):
    sy = gen.Sys(d, max_th=1)
    m, s = sy.build()
    x0, p, u = sy.vals(d, "x"), sy.vals(d, "p"), sy.vals(d, "u")
    t0 = d.choice([0.0, 1.0, -0.5, -1.0])
    tf = t0 + d.choice([0.5, 1.0, 1.5])
    ocp = OptimalControlProblem(m, x_0=gen.dmv(x0), t_0=t0, t_f=tf)
    n = d.int(1, 4)
    th = [sy.vals(d, "theta") for _ in range(n)]
    kw = {}
    a, b = t0, tf
    if d.bool():
        a = d.choice([t0 + 0.25, t0 - 0.25, 0.0])
        if a >= tf:
            a = t0 - 0.25
        kw["t_0"] = a
    if d.bool():
        b = d.choice([tf + 0.5, 0.0])
        if b <= a:
            b = tf + 0.5
        kw["t_f"] = b
    start = x0
    if d.bool():
        start = sy.vals(d, "x")
        kw["x_0"] = gen.dmv(start)
    if sy.n["u"]:
        how = d.int(0, 2)
        if how == 0:
            ocp.u_guess = gen.dmv(u)
        else:
            kw["u"] = gen.dmv(u)
            if how == 1:
                ocp.u_guess = gen.dmv(u + 1.0)  # an explicit control goes first
    if sy.n["y"] and d.bool():
        ocp.y_guess = gen.dmv(np.zeros(sy.n["y"]))
    if d.int(0, 3) == 0:
        kw["t_f"] = [a + (b - a) * (k + 1) / n for k in range(n)]
        if d.bool():
            kw["finite_elements"] = n
    elif n > 1 or d.bool():
        kw["finite_elements"] = n
    if sy.n["p"]:
        kw["p"] = gen.dmv(p)
    if sy.n["theta"]:
        kw["theta"] = gen.thdict(d, n, lambda k: gen.dmv(th[k]))
    d.interesting(t0 != 0 or n > 1)
    d.label("elements=%d" % n)
    res = ocp.simulate(**kw)
    ts = [a + (b - a) * (k + 1) / n for k in range(n)]
    tx, vx = res.get_entry("x")
    check(gen.close(gen.arr(tx), [a] + ts, 1e-9), "the simulated grid is not [t_0 ... t_f] in the given number of elements", got=tx, expected=[a] + ts)
    x, t, xs = start, a, [start]
    for k in range(n):
        x = sy.solve(x, t, ts[k], u, p, th[k])
        t = ts[k]
        xs.append(x)
    check(gen.close(gen.mat(vx), np.array(xs).T, 2e-4), "simulated states differ from the solution", got=vx, expected=np.array(xs).T)


def edited(d):
    """the model simulated is the one at the time of the call: simulations between edits of the same model"""
    sy = gen.Sys(d, max_x=2)
    m, s = sy.build()
    d.note(sy.describe())
    for r in range(d.int(2, 4)):
        if r:
            op = d.choice(["args", "ode", "p", "state", "alg", "copy"])
            if op == "ode":
                i = d.int(0, sy.n["x"] - 1)
                sy.c[i] += d.choice([1.0, -1.0])
                sy.A[i, i] -= 0.25
                m.include_equations(ode=[sy.ode_sx(s, m.t)[i]], x=[s["x"][i]])
            elif op == "p" and sy.n["p"]:
                j = d.int(0, sy.n["p"] - 1)
                m.replace_variable(s["p"][j], s["p"][j] + 0.75)
                sy.c = sy.c + 0.75 * sy.C[:, j]
                sy.g = sy.g + 0.75 * sy.L[:, j]
            elif op == "state" and sy.n["x"] < 4:
                v = m.create_state("z%d" % r)
                nx = sy.n["x"]
                sy.n["x"] += 1
                s["x"].append(v)
                sy.A = np.vstack([np.hstack([sy.A, np.zeros((nx, 1))]), np.concatenate([np.full(nx, 0.5), [-0.5]])])
                for q in "EBCD":
                    M_ = getattr(sy, q)
                    setattr(sy, q, np.vstack([M_, np.zeros((1, M_.shape[1]))]))
                sy.c, sy.s = np.append(sy.c, 0.25), np.append(sy.s, 0.0)
                sy.H = np.hstack([sy.H, np.zeros((sy.n["y"], 1))])
                if sy.nl:
                    sy.nl = sy.nl + [(0, 0.0)]
                m.include_equations(ode=[sy.ode_sx(s, m.t)[-1]], x=[v])
            elif op == "alg" and sy.n["y"]:
                m.alg = m.alg + 0.5
                sy.g = sy.g + 0.5
            elif op == "copy":
                m = m.get_copy()
            d.label(op)
        x0, p, u = sy.vals(d, "x"), sy.vals(d, "p"), sy.vals(d, "u")
        t0 = d.choice([0.0, 1.0])
        tf = grid(d, t0, 2)
        th = [sy.vals(d, "theta") for _ in tf]
        a = {"x_0": gen.dmv(x0), "p": gen.dmv(p), "u": gen.dmv(u)}
        ths = {k: gen.dmv(v) for k, v in enumerate(th)}
        res = m.simulate(t_f=tf, t_0=t0, theta=ths, **a)
        x, t, xs = x0, t0, [x0]
        for k, b in enumerate(tf):
            x = sy.solve(x, t, b, u, p, th[k])
            t = b
            xs.append(x)
        check(gen.close(gen.mat(res.get_entry("x")[1]), np.array(xs).T, 2e-4), "simulated states differ from the solution of the model as it is now", round=r, got=res.get_entry("x")[1], expected=np.array(xs).T)
        if sy.n["y"]:
            yv = sy.yval(t, x, u, p, th[-1])
            check(gen.close(gen.arr(res.final_condition()["y"]), yv, 2e-3), "algebraic values differ from those of the model as it is now", got=res.final_condition()["y"], expected=yv)
        for k, v in (("x_0", x0), ("p", p), ("u", u)):
            check(gen.close(gen.arr(a[k]), v, 0), "an argument of simulate was changed", name=k)
        check(all(gen.close(gen.arr(ths[k]), th[k], 0) for k in range(len(tf))) and list(ths) == list(range(len(tf))), "the thetas given to simulate were changed")
    d.interesting()


def refusals(d):
    sy = gen.Sys(d, max_y=1, min_u=1)
    m, s = sy.build()
    n = d.int(2, 4)
    k = d.int(1, n - 1)
    u = {i: gen.dmv(sy.vals(d, "u")) for i in range(k)}
    d.interesting()
    check(raises(lambda: m.simulate(gen.dmv(sy.vals(d, "x")), [0.5 * (i + 1) for i in range(n)], u=u, p=gen.dmv(sy.vals(d, "p")),
                                    theta={i: gen.dmv(sy.vals(d, "theta")) for i in range(n)})),
          "a control sequence shorter than the grid must be refused")
    m2, s2 = sy.build()
    m2.include_equations(ode=[m2.tau], x=[s2["x"][0]])
    check(raises(lambda: m2.simulate(gen.dmv(sy.vals(d, "x")), 1.0, u=gen.dmv(sy.vals(d, "u")), p=gen.dmv(sy.vals(d, "p")),
                                     theta={0: gen.dmv(sy.vals(d, "theta"))})), "a system depending on tau cannot be simulated")


FAMILIES = [Family("model", model, 2400, 14400, shards=3), Family("dae_simulate", dae_simulate, 1200, 7200, shards=4),
            Family("metamorphic", metamorphic, 1000, 6000, shards=4), Family("ocp_simulate", ocp_simulate, 800, 5000, shards=4),
            Family("edited", edited, 600, 4000, shards=4), Family("refusals", refusals, 120, 720, shards=4),
            Family("configured", configured, 200, 1500, shards=4)]
