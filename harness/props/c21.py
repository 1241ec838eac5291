"""C21: equilibria, algebraic values and linearizations satisfy their equations"""
import copy

import casadi as ca
import gen
import numpy as np
from core import Family, check, raises
from scipy.linalg import expm
from yaocptool import config
from yaocptool.modelling import SystemModel

RULE = ("random models: equilibrium equations contractive around a permuted dominant matrix (unique root, reference by fixed point iteration in numpy), index-1 algebraic equations "
        "with controls/parameters/theta/time, random smooth right-hand sides for linearization (reference: central differences of an AST interpreter). "
        "Non-trivial: more than one unknown (equilibrium, algebraic) or a nonlinear right-hand side (linearize)")


def opts(d):
    """explicit rootfinder options, or the default"""
    if d.int(0, 3):
        return {}
    return {"rootfinder_options": dict(nlpsol="ipopt", nlpsol_options={"ipopt.print_level": 0, "print_time": False, "ipopt.sb": "yes", "ipopt.linear_solver": "mumps"})}


def form(d, v):
    v = [float(a) for a in v]
    return d.choice([list, gen.dmv])(v)


def snapshot(m):
    return [str(v) for v in (m.x, m.y, m.u, m.p, m.theta, m.ode, m.alg, m.u_expr, m.u_par, m.x_0)]


def fam_equilibrium(d):
    nx, ny, nu = d.int(1, 3), d.int(0, 2), d.int(0, 2)
    N = nx + ny + nu
    A = np.array([[d.num(-0.5, 0.5, 0.25) for _ in range(N)] for _ in range(N)])
    for i in range(N):
        A[i, i] = d.choice([1.0, -1.0]) * (np.sum(np.abs(A[i])) + 0.75)
    b = np.array(d.vec(N, -1, 1))
    nl = [(d.int(0, N - 1), d.num(-0.5, 0.5, 0.25)) for _ in range(N)] if d.bool() else [(0, 0.0)] * N
    tc = np.array(d.vec(N, -1, 1, 0.5)) if d.bool() else np.zeros(N)
    tauc = np.array(d.vec(N, -1, 1, 0.5)) if d.bool() else np.zeros(N)
    perm = d.perm(range(N))  # row i of the dominant system is equation perm[i]
    t0 = d.choice([0.0, 0.0, d.num(-2, 2)])

    m = SystemModel(name="m")
    kinds = d.perm(["x", "y", "u"])
    s = {}
    for k in kinds:  # declaration order must not matter
        if k == "x":
            s["x"] = [m.create_state("x%d" % i) for i in range(nx)]
        elif k == "y":
            s["y"] = [m.create_algebraic_variable("y%d" % i) for i in range(ny)]
        else:
            s["u"] = [m.create_control("u%d" % i) for i in range(nu)]
    z = s["x"] + s["y"] + s["u"]
    rows = [None] * N
    for i in range(N):
        e = ca.SX(float(b[i]))
        for j in range(N):
            if A[i, j]:
                e = e + float(A[i, j]) * z[j]
        if nl[i][1]:
            e = e + nl[i][1] * ca.sin(z[nl[i][0]])
        if tc[i]:
            e = e + float(tc[i]) * ca.sin(m.t)
        if tauc[i]:
            e = e + float(tauc[i]) * m.tau
        rows[perm[i]] = e
    m.include_equations(ode=rows[:nx], x=s["x"])
    if ny:
        m.include_equations(alg=rows[nx:nx + ny])
    add = rows[nx + ny:]
    kw = opts(d)
    if d.bool() or not nu:
        arg = list(add)
    else:
        arg = ca.vertcat(*add)
    if t0 != 0.0 or d.bool():
        kw["t_0"] = t0
    guess = None
    if d.bool():
        guess = form(d, d.vec(N, -1, 1))
        kw["guess"] = guess
    before = snapshot(m)
    g_copy = list(gen.arr(ca.DM(guess))) if guess is not None else None
    cfg = copy.deepcopy(config.SOLVER_OPTIONS)
    d.interesting(N > 1)
    d.label("n=%d,%d,%d" % (nx, ny, nu))
    d.note({"A": A.tolist(), "t0": t0, "order": perm})
    if d.int(0, 2) == 0:  # another question in between
        m.find_equilibrium(arg, **dict(kw, t_0=t0 + 1.0))
        d.label("asked before")
    x, y, u = m.find_equilibrium(arg, **kw)
    check((x.numel(), y.numel(), u.numel()) == (nx, ny, nu), "sizes of the equilibrium", got=(x.shape, y.shape, u.shape), expected=(nx, ny, nu))
    # reference: contraction  z = -D^-1 (offdiag z + b + ...)
    zr = np.zeros(N)
    for _ in range(400):
        r = A @ zr + b + np.array([k * np.sin(zr[j]) for j, k in nl]) + tc * np.sin(t0)
        zr = zr - np.linalg.solve(A, r)
    r = A @ zr + b + np.array([k * np.sin(zr[j]) for j, k in nl]) + tc * np.sin(t0)
    got = np.concatenate([gen.arr(v) if v.numel() else np.zeros(0) for v in (x, y, u)])
    rg = A @ got + b + np.array([k * np.sin(got[j]) for j, k in nl]) + tc * np.sin(t0)
    check(np.max(np.abs(rg)) < 1e-6, "residual of the equilibrium equations", residual=rg[np.argsort(perm)], x=x, y=y, u=u, reference=zr, t_0=t0)
    if np.max(np.abs(r)) < 1e-9:
        check(np.max(np.abs(got - zr)) < 1e-4, "equilibrium", got=got, expected=zr)
    check(snapshot(m) == before, "the model was changed")
    check(config.SOLVER_OPTIONS == cfg, "the default options were changed")
    if guess is not None:
        check(list(gen.arr(ca.DM(guess))) == g_copy, "the guess was changed")


def fam_algebraic(d):
    sy = gen.Sys(d, min_y=1, max_y=3, nonlin=False)
    m, s = sy.build()
    ny = sy.n["y"]
    nl = [(d.int(0, ny - 1), d.num(-0.25, 0.25, 0.125)) for _ in range(ny)] if d.bool() else []
    if nl:
        m.alg = m.alg + ca.vertcat(*[k * ca.sin(s["y"][j]) for j, k in nl])
    if d.bool():  # the order of declaration must not matter, nor a copy
        m = d.choice([m.get_copy, m.get_deepcopy])()
    ask(d, sy, m, nl)
    for _ in range(d.int(0, 2)):  # other arguments, or another equation, for the same model
        if d.bool():
            m.alg = m.alg + 0.5
            sy.g = sy.g + 0.5
            d.label("edited")
        ask(d, sy, m, nl)
        d.label("asked again")


def ask(d, sy, m, nl):
    ny = sy.n["y"]
    x, u, p, th = (sy.vals(d, k) for k in ("x", "u", "p", "theta"))
    t = d.num(-2, 2) if d.bool() else 0.0
    kw = opts(d)
    if t or d.bool():
        kw["t"] = t
    if sy.n["p"]:
        kw["p"] = form(d, p)
    if sy.n["theta"]:
        kw["theta_value"] = form(d, th)
    if d.bool():
        kw["guess"] = form(d, d.vec(ny, -1, 1))
    before = snapshot(m)
    cfg = copy.deepcopy(config.SOLVER_OPTIONS)
    d.interesting(ny > 1 or sum(sy.n.values()) > 3)
    d.label("t" if sy.timevar else "autonomous")
    xv, uv = gen.dmv(x), gen.dmv(u)
    y = m.find_algebraic_variable(xv, uv, **kw)
    check(y.numel() == ny, "size of the algebraic variables", got=y.shape)
    yv = gen.arr(y)
    res = sy.G @ yv + sy.H @ x + sy.K @ u + sy.L @ p + sy.M @ th + sy.g + sy.v * np.sin(t) + (np.array([k * np.sin(yv[j]) for j, k in nl]) if nl else 0)
    check(np.max(np.abs(res)) < 1e-6, "residual of the algebraic equations", y=yv, residual=res, t=t, u=u, p=p, theta=th)
    if not nl:
        check(np.max(np.abs(yv - sy.yval(t, x, u, p, th))) < 1e-4, "algebraic variables", got=yv, expected=sy.yval(t, x, u, p, th))
    check(snapshot(m) == before, "the model was changed")
    check(config.SOLVER_OPTIONS == cfg, "the default options were changed")
    check(np.array_equal(gen.arr(xv), x) and (not len(u) or np.array_equal(gen.arr(uv), u)), "the arguments were changed")


def fam_linearize(d):
    nx, nu = d.int(1, 3), d.int(0, 2)
    m = SystemModel(name=d.choice(["m", "tank"]))
    names = ["x%d" % i for i in range(nx)] + ["u%d" % i for i in range(nu)]
    env = {}
    for n in (names if d.bool() else names[nx:] + names[:nx]):
        env[n] = m.create_state(n) if n[0] == "x" else m.create_control(n)
    asts = [gen.expr(d, names, 3) for _ in range(nx)]
    m.include_equations(ode=[ca.SX(gen.to_sx(a, env)) for a in asts], x=[env["x%d" % i] for i in range(nx)])
    xb, ub = np.array(d.vec(nx, -1.5, 1.5)), np.array(d.vec(nu, -1.5, 1.5))
    before = snapshot(m)
    if d.int(0, 2) == 0:  # another point before
        m.linearize(form(d, xb + 0.5), form(d, ub - 0.5))
        d.label("asked before")
    fx, fu = form(d, xb), form(d, ub)
    lin = m.linearize(fx, fu)
    check(gen.close(gen.arr(ca.DM(fx)), xb, 0) and (not nu or gen.close(gen.arr(ca.DM(fu)), ub, 0)), "the point given to linearize was changed")
    check((lin.n_x, lin.n_u, lin.n_y, lin.n_p, lin.n_theta) == (nx, nu, 0, 0, 0), "sizes of the linear model", got=(lin.n_x, lin.n_u))
    check(lin.name == "linearized_" + m.name, "name of the linear model", got=lin.name)

    def f(v):
        e = dict(zip(names, v))
        return np.array([gen.evalf(a, e) for a in asts])

    z = np.concatenate([xb, ub])
    h = 1e-4
    J = np.array([(8 * (f(z + h * e) - f(z - h * e)) - (f(z + 2 * h * e) - f(z - 2 * h * e))) / (12 * h) for e in np.eye(nx + nu)]).T.reshape(nx, nx + nu)
    d.interesting(any(a[0] in ("sin", "*") for a in asts))
    d.note({"ode": [gen.show(a) for a in asts], "x": xb.tolist(), "u": ub.tolist()})
    fl = ca.Function("f", [lin.x, lin.u], [lin.ode])
    pts = [np.zeros(nx + nu)] + list(np.eye(nx + nu)) + [np.array(d.vec(nx + nu, -2, 2))]
    for q in pts:
        got = gen.arr(fl(gen.dmv(q[:nx]), gen.dmv(q[nx:])))
        check(np.allclose(got, J @ q, rtol=1e-6, atol=1e-6), "right-hand side of the linear model", at=q, got=got, expected=J @ q, ode=[gen.show(a) for a in asts])
    check(snapshot(m) == before, "the model was changed")
    if np.max(np.abs(J)) < 3:
        d.label("simulated")
        x0, u = np.array(d.vec(nx, -1, 1)), np.array(d.vec(nu, -1, 1))
        tf = d.num(0.25, 1)
        M = np.zeros((nx + nu, nx + nu))
        M[:nx] = J
        ref = (expm(M * tf) @ np.concatenate([x0, u]))[:nx]
        res = lin.simulate(x_0=gen.dmv(x0), t_f=tf, u=gen.dmv(u)) if nu else lin.simulate(x_0=gen.dmv(x0), t_f=tf)
        xf = gen.arr(res.x[-1])
        check(np.allclose(xf, ref, rtol=1e-4, atol=1e-4), "simulation of the linear model", got=xf, expected=ref)


FAMILIES = [
    Family("equilibrium", fam_equilibrium, 480, 3000, shards=4, tshards=8),
    Family("algebraic", fam_algebraic, 480, 3000, shards=4, tshards=8),
    Family("linearize", fam_linearize, 800, 4800, shards=4, tshards=8),
]
