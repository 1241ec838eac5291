"""C09: the indirect method agrees with the minimum principle and the direct method"""
import math

import casadi as ca
import gen
import numpy as np
import ocpgen
from ocpgen import aff, plus, sq
from core import Family, check
from scipy.integrate import solve_ivp

RULE = ("random problems with (differential-algebraic, possibly time-varying, possibly nonlinear in the states) dynamics, costs quadratic in the controls, final costs and final equalities, with or without control bounds, "
        "x scheme x degree x elements x cost state x parameters and per-element thetas x initial state from the problem or from the call. Oracle: the Hamiltonian conditions written and differentiated "
        "independently, evaluated on the returned trajectories (collocation equations or independent integration between nodes), and for linear-quadratic problems the exact two-point boundary value problem solved by superposition. "
        "Non-trivial: the adjoints are not all zero")


class Ind(ocpgen.LQ):
    def __init__(self, d, scheme=None, nonlin=False, bounded=False, min_deg=2):
        super().__init__(d, scheme=scheme, cons=False, opts=False, delta=False, bounds=False, max_y=1, max_el=3, min_deg=min_deg, dc=1, max_u=2)
        self.S = ("c", 0.0)
        if bounded and len(self.un) > 1:  # each control alone in its part of the cost: the minimiser of the Hamiltonian is the clipped one
            W = lambda: d.choice([0.5, 1.0, 2.0])
            cross = lambda u: sq(aff(d, self.xn + self.yn + self.base_p + self.base_th + [u], "t"), W())
            self.L = plus([sq(("-", ("v", u), ("c", d.num(-1, 1, 0.5))), W()) for u in self.un] + [sq(("v", x), W()) for x in self.xn if d.bool()] + [cross(u) for u in self.un if d.bool()])
            d.label("two bounded controls")
        if not self.col:  # reporting values at the start of an element is (explicitly) not implemented for shooting
            self.degree = max(self.degree, 2)
        if nonlin:
            nx = self.sy.n["x"]
            self.sy.nl = [(d.int(0, nx - 1), d.num(-0.5, 0.5, 0.25)) for _ in range(nx)]
        if d.int(0, 2) == 0:
            self.h_final.append(("+", ocpgen.aff(d, self.xn, None, 0.5), ("v", self.xn[0])))
        self.bounded = bounded

    def prepare(self):
        super().prepare()
        nu = len(self.un)
        self.u_lo, self.u_hi = np.full(nu, -math.inf), np.full(nu, math.inf)
        if self.bounded:
            for i in range(nu):
                k = self.d.int(0, 2)
                if k != 1:
                    self.u_lo[i] = self.d.num(-1.5, 0, 0.25)
                if k != 2:
                    self.u_hi[i] = self.d.num(0.25, 1.5, 0.25)
                if i and self.d.bool():  # the same limits, or mirrored ones, as the first control
                    if k != 1:
                        self.u_lo[i] = self.u_lo[0]
                    if k != 2:
                        self.u_hi[i] = -self.u_lo[0] if self.u_lo[0] < 0 and self.d.bool() else self.u_hi[0]
                elif not i and k == 0 and self.u_lo[0] < 0 and self.d.bool():
                    self.u_hi[0] = -self.u_lo[0]
        if self.d.int(0, 3) == 0:  # bounds on states and algebraic variables are (with a warning) ignored
            for lo, hi in ((self.x_lo, self.x_hi), (self.y_lo, self.y_hi)):
                for i in range(len(lo)):
                    if self.d.bool():
                        lo[i] = self.d.num(-1, 0, 0.25)
                    if self.d.bool():
                        hi[i] = self.d.num(0.25, 1, 0.25)
            self.d.label("ignored bounds")
        self.hamiltonian()

    def hamiltonian(self):
        """functions of (t, x, y, u, lam, nu, p, th): f, alg, -H_x, H_y, H_u, L and the Jacobian of (alg, H_y, H_u) by (y, nu, u)"""
        n, sy = self.sy.n, self.sy
        t = ca.SX.sym("t")
        s = {k: [ca.SX.sym("%s%d" % (k, i)) for i in range(n[k])] for k in ("x", "y", "u", "p", "theta")}
        lam = ca.SX.sym("l", n["x"])
        nu = ca.SX.sym("n", n["y"])
        f = ca.vertcat(*sy.ode_sx(s, t))
        g = ca.vertcat(*sy.alg_sx(s, t)) if n["y"] else ca.SX(0, 1)
        env = {"t": t}
        for k, names in (("x", self.xn), ("y", self.yn), ("u", self.un), ("p", self.base_p), ("theta", self.base_th)):
            env.update(zip(names, s[k]))
        L = ca.SX(ocpgen.to_num(self.L, env))
        H = L + ca.dot(lam, f) + (ca.dot(nu, g) if n["y"] else 0)
        X, Y, U, P, T = (ca.vertcat(*s[k]) if n[k] else ca.SX(0, 1) for k in ("x", "y", "u", "p", "theta"))
        args = [t, X, Y, U, lam, nu, P, T]
        Hx, Hu = ca.gradient(H, X), ca.gradient(H, U)
        Hy = ca.gradient(H, Y) if n["y"] else ca.SX(0, 1)
        Huu = ca.jacobian(Hu, U)
        self.F = ca.Function("F", args, [f, g, -Hx, Hy, Hu, L, Huu])
        w = ca.vertcat(Y, nu, U)
        r = ca.vertcat(g, Hy, Hu)
        self.K = ca.Function("K", args, [r, ca.jacobian(r, w)])
        xs = ca.vertcat(*s["x"])
        V = ca.SX(ocpgen.to_num(self.V, env))
        hf = ca.vertcat(*[ca.SX(ocpgen.to_num(e, env)) for e in self.h_final]) if self.h_final else ca.SX(0, 1)
        self.fin = ca.Function("fin", [xs, P], [ca.gradient(V, xs), hf, ca.jacobian(hf, xs) if self.h_final else ca.SX(0, n["x"])])

    def val(self, *a):
        return [np.array(v.full()) for v in self.F(*[gen.dmv(x) for x in a])]

    def kkt(self, t, x, lam, p, th):
        """(y, nu, u) from x and lam (linear in them)"""
        ny, nu = len(self.yn), len(self.un)
        z = np.zeros(2 * ny + nu)
        r, J = self.K(t, gen.dmv(x), gen.dmv(z[:ny]), gen.dmv(z[2 * ny:]), gen.dmv(lam), gen.dmv(z[ny:2 * ny]), gen.dmv(p), gen.dmv(th))
        z = -np.linalg.solve(J.full(), r.full().flatten())
        return z[:ny], z[ny:2 * ny], z[2 * ny:]

    def rhs(self, t, z, p, th):
        nx = len(self.xn)
        x, lam = z[:nx], z[nx:2 * nx]
        y, nu, u = self.kkt(t, x, lam, p, th)
        f, _, ml, _, _, L, _ = self.val([t], x, y, u, lam, nu, p, th)
        return np.concatenate([f.flatten(), ml.flatten(), L.flatten()])

    def flow(self, el, z, P, TH, tau0=0.0, tau1=1.0):
        p, th = self.pv(P), self.thv(TH[el])
        r = solve_ivp(lambda t, zz: self.rhs(t, zz, p, th), (self.time(el, tau0), self.time(el, tau1)), z, method="DOP853", rtol=1e-8, atol=1e-10)
        return r.y[:, -1]


def solve(o, d, **kw):
    from yaocptool.methods import IndirectMethod

    if d.bool():
        kw["initial_guess_heuristic"] = "problem_info"
    cost = d.bool()
    m = IndirectMethod(o.ocp, finite_elements=o.N, degree=o.degree, discretization_scheme=o.scheme, create_cost_state=cost, **kw)
    a = {}
    x0 = o.x0
    if d.int(0, 2) == 0:
        x0 = o.sy.vals(d, "x")
        a["x_0"] = gen.dmv(list(x0) + [d.num(-1, 1) for _ in o.xn] + ([0.0] if cost else []))
        d.label("x_0 in the call")
    if o.pn:
        a["p"] = o.p_arg(o.P)
    if o.thn:
        a["theta"] = o.th_arg(o.TH)
    r = m.solve(**a)
    return m, r, x0, cost


def trajectory(o, m, r):
    """dict of arrays by name from the decision vector"""
    v = gen.arr(r.raw_solution_dict["x"])
    nv = m.opt_problem.x.numel()
    x, y, u, eta, _, _ = m.discretizer.unpack_decision_variables(ca.DM(list(range(nv))))
    I = lambda k: [int(i) for i in gen.arr(k)] if k.numel() else []
    X = [[v[I(k)] for k in e] for e in x]
    Y = [[v[I(k)] for k in e] for e in y]
    xn, yn = list(r.x_names), list(r.y_names)
    nx, ny = len(o.xn), len(o.yn)
    ix = [xn.index(q) for q in o.xn]
    iy = [yn.index(q) for q in o.yn]
    lam = [i for i, q in enumerate(xn) if i not in ix and "lamb" in q]
    nus = [i for i, q in enumerate(yn) if i not in iy]
    check(len(lam) == nx and len(nus) == ny, "one adjoint per state and one multiplier per algebraic equation", x_names=xn, y_names=yn)
    ic = [i for i in range(len(xn)) if i not in ix and i not in lam]
    return X, Y, ix, lam, ic, iy, nus


def run(d, o, tag):
    o.prepare()
    o.build()
    d.note("%s %s h_final=%s u bounds=%s" % (tag, o.describe(), [gen.show(e) for e in o.h_final], (o.u_lo.tolist(), o.u_hi.tolist())))
    kw = {}
    if not o.col:
        kw["integrator_type"] = "collocation" if o.yn or d.bool() else "rk"
    if tag != "lq":
        kw["nlpsol_opts"] = {"ipopt.max_iter": 200}
    m, r, x0, cost = solve(o, d, **kw)
    if not r.success and tag != "lq":
        d.label("not solved")
        return
    exact = bvp(o, d, x0) if tag == "lq" else None
    if not r.success:
        check(exact is None, "the solver did not succeed on a well-posed linear-quadratic problem", status=r.stats.get("return_status"))
        return
    conditions(o, d, m, r, x0, cost)
    if exact is not None and (o.degree >= 3 or not o.col):
        names = list(r.x_names)
        ix = [names.index(q) for q in o.xn]
        got = np.array([gen.arr(e[0])[ix] for e in r.x_data["values"]])
        exp = np.array([z[:len(ix)] for z in exact])
        check(gen.close(got, exp, 5e-3 * max(1.0, np.max(np.abs(exact)))), "the states are not the optimal ones", got=got, expected=exp)
        d.label("boundary value problem")


def conditions(o, d, m, r, x0, cost):
    X, Y, ix, il, ic, iy, inu = trajectory(o, m, r)
    nx = len(o.xn)
    c = ocpgen.radau(o.degree)
    tol = 1e-5 if o.col else 2e-4
    check(gen.close(X[0][0][ix], x0, 1e-6), "the trajectory does not start at the initial state", got=X[0][0][ix], expected=x0)
    big = max(1.0, max(np.max(np.abs(e)) for el in X for e in el))
    U = [[gen.arr(v) for v in e] for e in r.u_data["values"]]
    T = r.u_data["time"]
    iu = [list(r.u_names).index(q) for q in o.un]
    J = 0.0
    A = ocpgen.butcher(o.degree)
    p = o.pv(o.P)
    for el in range(o.N):
        th = o.thv(o.TH[el])
        if o.col:
            if el:
                check(gen.close(X[el - 1][-1], X[el][0], tol * big), "states or adjoints are not continuous", element=el)
            nodes = np.concatenate([[0.0], c])
            for j, tau in enumerate(c):
                t = o.time(el, tau)
                z = X[el][j + 1]
                x, lam = z[ix], z[il]
                y = Y[el][j][iy] if iy else np.zeros(0)
                nu = Y[el][j][inu] if inu else np.zeros(0)
                # control that minimises the Hamiltonian over its bounds (diagonal or unbounded)
                _, _, _, _, hu, _, huu = o.val([t], x, y, np.zeros(len(o.un)), lam, nu, p, th)
                us = -np.linalg.solve(huu, hu.flatten())
                us = np.minimum(np.maximum(us, o.u_lo), o.u_hi)
                f, g, ml, hy, _, L, _ = o.val([t], x, y, us, lam, nu, p, th)
                der = ocpgen.lagrange_der(nodes, tau) @ np.array(X[el]) / o.dt
                check(gen.close(der[ix], f.flatten(), tol * big * 10), "the states do not obey the dynamics", element=el, point=j, got=der[ix], expected=f.flatten())
                check(gen.close(der[il], ml.flatten(), tol * big * 10), "the adjoints do not obey the adjoint equations", element=el, point=j, got=der[il], expected=ml.flatten())
                if iy:
                    check(gen.close(g.flatten(), 0 * g.flatten(), tol * big), "algebraic equations", element=el, point=j, got=g)
                    check(gen.close(hy.flatten(), 0 * hy.flatten(), tol * big), "the Hamiltonian is not stationary in the algebraic variables", element=el, point=j, got=hy)
                J += o.dt * A[-1, j] * float(L)
                if o.degree > 1:
                    check(gen.close([float(T[el][j])], [t], 1e-9), "time of a reported control", got=T[el][j], expected=t)
                    check(gen.close(U[el][j][iu], us, tol * big), "the reported control does not minimise the Hamiltonian", element=el, point=j, got=U[el][j][iu], expected=us)
        else:
            z = np.concatenate([X[el][0][ix], X[el][0][il], [0.0]])
            zf = o.flow(el, z, o.P, o.TH)
            check(gen.close(X[el + 1][0][ix], zf[:nx], tol * big), "the states do not obey the dynamics", element=el, got=X[el + 1][0][ix], expected=zf[:nx])
            check(gen.close(X[el + 1][0][il], zf[nx:2 * nx], tol * big), "the adjoints do not obey the adjoint equations", element=el, got=X[el + 1][0][il], expected=zf[nx:2 * nx])
            J += zf[-1]
            for j, t in enumerate(T[el]):
                tau = (float(t) - o.time(el, 0.0)) / o.dt
                zz = o.flow(el, z, o.P, o.TH, 0.0, tau) if tau > 1e-12 else z
                _, _, us = o.kkt(float(t), zz[:nx], zz[nx:2 * nx], p, th)
                check(gen.close(U[el][j][iu], us, 10 * tol * big), "the reported control does not minimise the Hamiltonian", element=el, time=t, got=U[el][j][iu], expected=us)
    zf = X[-1][-1] if not o.col else X[o.N - 1][-1]
    x, lam = zf[ix], zf[il]
    Vx, hf, hx = [np.array(v.full()) for v in o.fin(gen.dmv(x), gen.dmv(p))]
    res = lam - Vx.flatten()
    if o.h_final:
        check(gen.close(hf.flatten(), o.h_final_v, tol * big), "final equality", got=hf.flatten(), expected=o.h_final_v)
        e, *_ = np.linalg.lstsq(hx.T, res, rcond=None)
        res = res - hx.T @ e
    check(gen.close(res, 0 * res, tol * big), "transversality condition", got=lam, expected=Vx.flatten())
    if cost:
        check(len(ic) == 1, "cost state")
        check(gen.close([zf[ic[0]]], [J], tol * big * 10), "the cost state is not the integral of the dynamic cost", got=zf[ic[0]], expected=J)
        d.label("cost state")
    d.label(o.scheme)
    d.label("DAE" if iy else "ODE")
    if o.h_final:
        d.label("final equality")
    sat = o.bounded and any(v <= o.u_lo[0] + 1e-9 or v >= o.u_hi[0] - 1e-9 for e in U for v in [w[iu][0] for w in e])
    if sat:
        d.label("control saturated")
    d.interesting(any(np.max(np.abs(np.array(e)[il])) > 1e-6 for el in X for e in el))


def bvp(o, d, x0):
    """exact solution of the linear two-point boundary value problem by superposition; None when it is (nearly) singular: final equality out of reach of the control"""
    nx = len(o.xn)

    def end(lam0):
        z = np.concatenate([x0, lam0, [0.0]])
        out = [z]
        for el in range(o.N):
            z = o.flow(el, z, o.P, o.TH)
            out.append(z)
        return out

    base = end(np.zeros(nx))[-1]
    S = np.array([end(np.eye(nx)[i])[-1] - base for i in range(nx)])[:, :2 * nx].T  # 2nx x nx
    # unknowns: lam0, eta;  lam_f = Vx(x_f) + hx' eta (Vx affine),  h(x_f) = v
    p = gen.dmv(o.pv(o.P))
    V0, h0, hx = [np.array(v.full()) for v in o.fin(gen.dmv(np.zeros(nx)), p)]
    Vxx = np.array([(np.array(o.fin(gen.dmv(np.eye(nx)[i]), p)[0].full()) - V0).flatten() for i in range(nx)]).T
    nh = len(o.h_final)
    M = np.zeros((nx + nh, nx + nh))
    b = np.zeros(nx + nh)
    M[:nx, :nx] = S[nx:] - Vxx @ S[:nx]
    M[:nx, nx:] = -hx.T
    b[:nx] = V0.flatten() + Vxx @ base[:nx] - base[nx:2 * nx]
    if nh:
        M[nx:, :nx] = hx @ S[:nx]
        b[nx:] = np.array(o.h_final_v) - h0.flatten() - hx @ base[:nx]
    if np.linalg.cond(M) > 1e4:
        d.label("boundary value problem nearly singular")
        return None
    sol = np.linalg.solve(M, b)
    return end(sol[:nx])


def lq(d):
    run(d, Ind(d, d.weighted([(3, "collocation"), (1, "multiple-shooting")]), min_deg=d.int(1, 3)), "lq")


def nonlinear(d):
    run(d, Ind(d, "collocation", nonlin=True, min_deg=2), "nonlinear")


def bounded(d):
    run(d, Ind(d, "collocation", bounded=True, min_deg=2), "bounded")


FAMILIES = [
    Family("lq", lq, 600, 3600, shards=4, tshards=8),
    Family("nonlinear", nonlinear, 400, 2400, shards=2, tshards=6),
    Family("bounded", bounded, 400, 2400, shards=2, tshards=6),
]
