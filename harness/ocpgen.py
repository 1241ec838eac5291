"""random optimal control problems with an independent transcription (Radau collocation / shooting)

Everything here is written from the mathematical statement of the problem (dynamics, costs, constraints); nothing is
taken from the code under test except the mapping between decision vector positions and (variable, element, point),
which the discretizer reports itself (unpack_decision_variables).
"""
import math

import casadi as ca
import gen
import numpy as np
from core import Discard, check
from scipy.integrate import solve_ivp
from scipy.special import roots_jacobi

INF = math.inf


def radau(degree):
    """Radau IIA points in (0, 1], the last one exactly 1"""
    if degree == 1:
        return np.array([1.0])
    r, _ = roots_jacobi(degree - 1, 1, 0)
    return np.concatenate([np.sort((r + 1) / 2), [1.0]])


def lagrange(nodes, tau):
    """values of the Lagrange basis polynomials over nodes at tau"""
    out = []
    for j, a in enumerate(nodes):
        v = 1.0
        for k, b in enumerate(nodes):
            if k != j:
                v *= (tau - b) / (a - b)
        out.append(v)
    return np.array(out)


def lagrange_der(nodes, tau):
    """derivatives of the Lagrange basis polynomials over nodes at tau"""
    out = []
    for j, a in enumerate(nodes):
        s = 0.0
        for m, c in enumerate(nodes):
            if m == j:
                continue
            v = 1.0 / (a - c)
            for k, b in enumerate(nodes):
                if k not in (j, m):
                    v *= (tau - b) / (a - b)
            s += v
        out.append(s)
    return np.array(out)


def butcher(degree):
    """Radau IIA coefficients: integrals of the basis polynomials over the collocation points"""
    c = radau(degree)
    A = np.zeros((degree, degree))
    for j in range(degree):
        poly = np.poly1d([1.0])
        for k in range(degree):
            if k != j:
                poly *= np.poly1d([1.0, -c[k]]) / (c[j] - c[k])
        P = poly.integ()
        for i in range(degree):
            A[i, j] = P(c[i]) - P(0)
    return A


def solved(r, col):
    """did the solver succeed? Discards what only says something about the solver: a success by IPOPT's scaled criterion with a large dual
    residual (degenerate constraints, unbounded multipliers), and with shooting (the integrator's own error is noise to IPOPT) a stall near the solution"""
    it = r.stats.get("iterations") or {}
    pr, du = [(it.get(k) or [0.0])[-1] for k in ("inf_pr", "inf_du")]
    if r.success:
        if du > 1e-3:
            raise Discard()
        return True
    if not col and pr < 1e-3 and du < 0.1:
        raise Discard()
    return False


class Ocp:
    """one generated problem; build() makes the library's problem, the other methods are the oracle"""

    def __init__(self, d, scheme=None, smooth=False, max_x=2, max_y=1, max_u=2, min_u=0, min_y=0, costs=True, cons=True, bounds=True, opts=True, delta=True,
                 nonlin=True, max_el=3, max_deg=4, dc=None, timevar=True, grid=None, long=False):
        self.d = d
        self.scheme = scheme or d.choice(["collocation", "multiple-shooting"])
        self.col = self.scheme == "collocation"
        self.N = d.int(1, max_el)
        self.degree = d.int(1, max_deg) if self.col else d.int(1, 3)
        self.dc = dc if dc is not None else d.weighted([(3, 1), (1, 2), (1, 3)])
        self.t0 = d.choice([0.0, 1.0, -0.5, None])
        self.dt = d.choice([0.25, 0.5, 0.3])
        rare = d.int(0, 24) if long else 0
        if rare == 7:  # two-digit element numbers
            self.N, self.dt, self.degree = d.int(11, 12), 0.125, min(self.degree, 2)
            d.label("many elements")
        elif rare == 9:
            self.N = min(self.N, 2)
            self.degree = d.int(5, 7) if self.col else self.degree
            self.dc = dc if dc is not None else d.int(1, 6)
            d.label("high degree")
        elif rare == 11:
            max_x, max_y, max_u = max_x + 2, max_y + 2, max_u + 2
            d.label("many variables")
        elif rare == 13:
            d.label("many constraints")
        if self.t0 is None:  # ends at time zero
            self.t0 = -self.dt * self.N
        if grid is not None:  # same grid as another problem
            self.scheme, self.col, self.N, self.degree, self.dc, self.t0, self.dt = (getattr(grid, a) for a in ("scheme", "col", "N", "degree", "dc", "t0", "dt"))
        self.tf = self.t0 + self.dt * self.N
        sy = self.sy = gen.Sys(d, max_x=max_x, max_y=max_y, min_y=min_y, max_u=max_u, min_u=min_u, max_p=2, max_th=2, nonlin=nonlin, timevar=timevar)
        n = sy.n
        self.xn = ["x%d" % i for i in range(n["x"])]
        self.yn = ["y%d" % i for i in range(n["y"])]
        self.un = ["u%d" % i for i in range(n["u"])]
        self.pn = ["p%d" % i for i in range(n["p"])]
        self.thn = ["th%d" % i for i in range(n["theta"])]
        self.base_p, self.base_th = list(self.pn), list(self.thn)
        alln = self.xn + self.yn + self.un + self.pn + self.thn
        E = lambda names, t=None: gen.expr(d, names, 2, t)
        zero = ("c", 0.0)
        self.L = E(alln, "t") if (costs and d.int(0, 3)) else zero
        self.V = E(self.xn + self.pn) if (costs and d.int(0, 2)) else zero
        self.S = E(alln, "t") if (costs and d.int(0, 2) == 0) else zero
        # optimization parameters and thetas
        self.popt = self.some(d, self.base_p) if (opts and self.base_p) else []
        self.thopt = self.some(d, self.base_th) if (opts and self.base_th) else []
        # constraints
        self.ineq, self.eq = [], []
        if cons:
            for k in range(d.int(2, 4) if rare == 13 else d.int(0, 2)):
                nm = "pc%d" % k
                self.pn.append(nm)
                self.ineq.append({"e": E(alln, "t"), "p": nm, "when": self.when()})
            for k in range(d.int(1, 3) if rare == 13 else d.int(0, 1)):
                if d.bool():
                    w = self.when()
                    self.eq.append({"kind": "time", "when": w, "skip": d.int(-1, 5) if d.int(0, 2) == 0 else -1})
                else:
                    w = "end" if not self.col else d.choice(["end", "start"])
                    nm = "w%d" % k
                    self.thn.append(nm)
                    self.eq.append({"kind": "theta", "e": E(alln, "t"), "th": nm, "when": w})
        self.h_final = [E(self.xn + self.base_p) for _ in range(d.int(0, 1) + (rare == 13))] if cons else []
        self.h = [E(self.base_p) for _ in range(d.int(0, 1))] if (cons and self.base_p) else []
        self.h_init = [E(self.xn) for _ in range(d.int(0, 1))] if cons else []
        # parameter values
        self.x0 = sy.vals(d, "x")
        self.P = {q: d.num(-1.5, 1.5) for q in self.base_p}
        self.TH = [{q: d.num(-1.5, 1.5) for q in self.base_th} for _ in range(self.N)]
        self.delta = bool(delta and n["u"] and self.dc == 1 and d.int(0, 2) == 0)
        self.last_u = None
        if self.delta and d.int(0, 2):
            self.last_u = sy.vals(d, "u")
        self.bounds = bounds

    def when(self):
        return self.d.choice(["default", "end", "start"]) if self.col else self.d.choice(["default", "end"])

    # ------------------------------------------------------------ instants named by a constraint: (element, tau)
    def instants(self, when):
        out = []
        for el in range(self.N):
            if when == "start":
                out.append((el, 0.0))
            elif when == "end" or not self.col:
                out.append((el, 1.0))
            else:
                out += [(el, float(c)) for c in radau(self.degree)]
        return out

    def time(self, el, tau):
        return self.t0 + self.dt * (el + tau)

    def u_at(self, U, el, tau):
        """U[el] is a list of dc vectors"""
        if not self.sy.n["u"]:
            return np.zeros(0)
        if self.dc == 1:
            return U[el][0]
        return lagrange(radau(self.dc), tau) @ np.array(U[el])

    def env(self, t, x, y, u, P, TH):
        e = {"t": t}
        e.update(zip(self.xn, x))
        e.update(zip(self.yn, y))
        e.update(zip(self.un, u))
        e.update(P)
        e.update(TH)
        return e

    def pv(self, P):
        return np.array([P[q] for q in self.base_p])

    def thv(self, TH):
        return np.array([TH[q] for q in self.base_th])

    # ------------------------------------------------------------ a trajectory that satisfies the dynamics
    def roll(self, U, P, TH, x0):
        """X[el][j] (with the cost state last), Y[el][j]; collocation: j=0..degree, shooting: X has N+1 entries of one point"""
        sy, nx = self.sy, self.sy.n["x"]
        X, Y = [], []
        z = np.concatenate([x0, [0.0]])
        if self.col:
            c, A = radau(self.degree), butcher(self.degree)
            for el in range(self.N):
                us = [self.u_at(U, el, tau) for tau in c]
                ts = [self.time(el, tau) for tau in c]
                p, th = self.pv(P), self.thv(TH[el])

                def F(zs, full=False):
                    zs = zs.reshape(self.degree, nx)
                    k = np.array([sy.f(ts[j], zs[j], us[j], p, th) for j in range(self.degree)])
                    return (zs - z[:nx] - self.dt * A @ k).flatten()

                zs = np.tile(z[:nx], self.degree).astype(float)
                for _ in range(50):
                    r = F(zs)
                    if np.max(np.abs(r)) < 1e-13:
                        break
                    J = np.array([(F(zs + 1e-6 * e) - F(zs - 1e-6 * e)) / 2e-6 for e in np.eye(zs.size)]).T
                    zs = zs - np.linalg.solve(J, r)
                zs = zs.reshape(self.degree, nx)
                ys = [sy.yval(ts[j], zs[j], us[j], p, th) for j in range(self.degree)]
                Ls = np.array([gen.evalf(self.L, self.env(ts[j], zs[j], ys[j], us[j], P, TH[el])) for j in range(self.degree)])
                cs = z[nx] + self.dt * A @ Ls
                X.append([z] + [np.concatenate([zs[j], [cs[j]]]) for j in range(self.degree)])
                Y.append(ys)
                z = X[-1][-1]
        else:
            X.append([z])
            for el in range(self.N):
                z, y = self.shoot(el, z, U, P, TH)
                X.append([z])
                Y.append([y])
        return X, Y

    def shoot(self, el, z, U, P, TH):
        sy, nx = self.sy, self.sy.n["x"]
        p, th = self.pv(P), self.thv(TH[el])
        ta = self.time(el, 0.0)

        def F(t, zz):
            x = zz[:nx]
            u = self.u_at(U, el, (t - ta) / self.dt)
            y = sy.yval(t, x, u, p, th)
            return np.concatenate([sy.f(t, x, u, p, th), [gen.evalf(self.L, self.env(t, x, y, u, P, TH[el]))]])

        r = solve_ivp(F, (ta, ta + self.dt), z, method="DOP853", rtol=1e-10, atol=1e-11)
        zf = r.y[:, -1]
        u = self.u_at(U, el, 1.0)
        return zf, sy.yval(ta + self.dt, zf[:nx], u, p, th)

    # ------------------------------------------------------------ values at instants
    def at(self, X, Y, U, el, tau):
        nx = self.sy.n["x"]
        u = self.u_at(U, el, tau)
        if not self.col:
            return X[el + 1][0][:nx], Y[el][0], u
        c = radau(self.degree)
        x = lagrange(np.concatenate([[0.0], c]), tau) @ np.array(X[el])
        y = lagrange(c, tau) @ np.array(Y[el]) if self.sy.n["y"] else np.zeros(0)
        return x[:nx], y, u

    def values(self, e, when, X, Y, U, P, TH):
        out = []
        for el, tau in self.instants(when):
            x, y, u = self.at(X, Y, U, el, tau)
            out.append(gen.evalf(e, self.env(self.time(el, tau), x, y, u, P, TH[el])))
        return out

    def timefun(self, c, t):
        """K * product over the named instants (but one, when skip >= 0)"""
        ts = [self.time(el, tau) for el, tau in self.instants(c["when"])]
        if c["skip"] >= 0:
            ts.pop(c["skip"] % len(ts))
        v = 1.0
        for s in ts:
            v = v * ((t - s) / self.dt)
        return v * 100.0

    def cost(self, X, Y, U, P, TH):
        nx = self.sy.n["x"]
        xf = X[-1][-1]
        c = gen.evalf(self.V, self.env(self.tf, xf[:nx], [0] * len(self.yn), [0] * len(self.un), P, {q: 0 for q in self.thn})) + xf[nx]
        for el in range(self.N):
            x, y, u = self.at(X, Y, U, el, 1.0)
            c += gen.evalf(self.S, self.env(self.time(el, 1.0), x, y, u, P, TH[el]))
        return c

    def equalities(self, X, Y, U, P, TH, x0):
        """all equality residuals of a candidate (any scaling)"""
        sy, nx = self.sy, self.sy.n["x"]
        r = list(X[0][0] - np.concatenate([x0, [0.0]]))
        x_first = X[0][0][:nx]
        for e, v in zip(self.h_init, self.h_init_v):
            r.append(gen.evalf(e, dict(zip(self.xn, x_first))) - v)
        c = radau(self.degree)
        for el in range(self.N):
            p, th = self.pv(P), self.thv(TH[el])
            if self.col:
                if el:
                    r += list(X[el - 1][-1] - X[el][0])
                nodes = np.concatenate([[0.0], c])
                for j, tau in enumerate(c):
                    t = self.time(el, tau)
                    x, y, u = X[el][j + 1], Y[el][j], self.u_at(U, el, tau)
                    der = lagrange_der(nodes, tau) @ np.array(X[el])
                    r += list(der - self.dt * np.concatenate([self.f_full(t, x[:nx], y, u, p, th), [gen.evalf(self.L, self.env(t, x[:nx], y, u, P, TH[el]))]]))
                    if sy.n["y"]:
                        r += list(sy.G @ y + sy.H @ x[:nx] + sy.K @ u + sy.L @ p + sy.M @ th + sy.g + sy.v * math.sin(t))
            else:
                zf, y = self.shoot(el, X[el][0], U, P, TH)
                r += list(zf - X[el + 1][0]) + list(y - Y[el][0])
        for q in self.eq:
            if q["kind"] == "theta":
                inst = self.instants(q["when"])
                vals = self.values(q["e"], q["when"], X, Y, U, P, TH)
                r += [v - TH[el][q["th"]] for (el, _), v in zip(inst, vals)]
            else:
                r += [self.timefun(q, self.time(el, tau)) for el, tau in self.instants(q["when"])]
        xf = X[-1][-1][:nx]
        for e, v in zip(self.h_final, self.h_final_v):
            r.append(gen.evalf(e, dict(zip(self.xn, xf), **P)) - v)
        for e, v in zip(self.h, self.h_v):
            r.append(gen.evalf(e, P) - v)
        return np.array(r, dtype=float)

    def f_full(self, t, x, y, u, p, th):
        sy = self.sy
        r = sy.A @ x + sy.E @ y + sy.B @ u + sy.C @ p + sy.D @ th + sy.c + sy.s * math.sin(sy.w * t)
        if sy.nl:
            r = r + np.array([k * math.sin(x[j]) for j, k in sy.nl])
        return r

    def inequalities(self, X, Y, U, P, TH):
        """values that must be <= 0, control moves included (bounds are checked separately)"""
        r = []
        for c in self.ineq:
            r += [v - P[c["p"]] for v in self.values(c["e"], c["when"], X, Y, U, P, TH)]
        if self.delta:
            for el in range(self.N):
                prev = U[el - 1][0] if el else self.last_u
                if prev is None:
                    continue
                mv = U[el][0] - prev
                r += [v for v in mv - self.du_max if math.isfinite(v)] + [v for v in self.du_min - mv if math.isfinite(v)]
        return r

    # ------------------------------------------------------------ base trajectory and constants
    def prepare(self):
        d, n = self.d, self.sy.n
        self.U = [[self.sy.vals(d, "u") for _ in range(self.dc)] for _ in range(self.N)] if n["u"] else [[] for _ in range(self.N)]
        for c in self.ineq:
            self.P[c["p"]] = 0.0
        for q in self.eq:
            if q["kind"] == "theta":
                for el in range(self.N):
                    self.TH[el][q["th"]] = 0.0
        self.X, self.Y = self.roll(self.U, self.P, self.TH, self.x0)
        for c in self.ineq:
            v = self.values(c["e"], c["when"], self.X, self.Y, self.U, self.P, self.TH)
            self.P[c["p"]] = max(v) + 0.01
        self.fix_theta(self.X, self.Y, self.U, self.P, self.TH)
        xf = self.X[-1][-1][: n["x"]]
        self.h_final_v = [gen.evalf(e, dict(zip(self.xn, xf), **self.P)) for e in self.h_final]
        self.h_v = [gen.evalf(e, self.P) for e in self.h]
        self.h_init_v = [gen.evalf(e, dict(zip(self.xn, self.x0))) for e in self.h_init]

        def bnd(vals, k):
            """bounds some of which are finite, all satisfied by vals (list of vectors)"""
            lo, hi = np.full(k, -INF), np.full(k, INF)
            for i in range(k):
                if self.bounds and d.bool():
                    lo[i] = min([v[i] for v in vals], default=0.0) - d.choice([0.01, 1.0])
                if self.bounds and d.bool():
                    hi[i] = max([v[i] for v in vals], default=0.0) + d.choice([0.01, 1.0])
            return lo, hi

        nx = n["x"]
        self.x_lo, self.x_hi = bnd([v[:nx] for e in self.X for v in e], nx)
        self.y_lo, self.y_hi = bnd([v for e in self.Y for v in e], n["y"])
        self.u_lo, self.u_hi = bnd([v for e in self.U for v in e], n["u"])
        self.po_lo, self.po_hi = bnd([[self.P[q] for q in self.popt]], len(self.popt))
        self.to_lo, self.to_hi = bnd([[T[q] for q in self.thopt] for T in self.TH], len(self.thopt))
        if self.delta:
            mv = [self.U[k][0] - self.U[k - 1][0] for k in range(1, self.N)] + ([self.U[0][0] - self.last_u] if self.last_u is not None else [])
            self.du_min, self.du_max = np.full(n["u"], -INF), np.full(n["u"], INF)
            for i in range(n["u"]):
                k = d.int(0, 3)
                if k in (1, 3):
                    self.du_max[i] = max([v[i] for v in mv] + [0.0]) + d.choice([0.01, 0.5])
                if k in (2, 3):
                    self.du_min[i] = min([v[i] for v in mv] + [0.0]) - d.choice([0.01, 0.5])
            if not (np.isfinite(self.du_max).any() or np.isfinite(self.du_min).any()):
                self.du_max[0] = max([v[0] for v in mv] + [0.0]) + 0.01

    def fix_theta(self, X, Y, U, P, TH):
        for q in self.eq:
            if q["kind"] == "theta":
                vals = self.values(q["e"], q["when"], X, Y, U, P, TH)
                for (el, _), v in zip(self.instants(q["when"]), vals):
                    TH[el][q["th"]] = v

    # ------------------------------------------------------------ the library's problem
    def build(self):
        from yaocptool.modelling import OptimalControlProblem

        d, sy = self.d, self.sy
        m, s = sy.build()
        ocp = OptimalControlProblem(m, name="prob", x_0=gen.dmv(self.x0), t_0=self.t0, t_f=self.tf)
        self.model = m
        env = {"t": m.t}
        for k, names in (("x", self.xn), ("y", self.yn), ("u", self.un), ("p", self.base_p), ("theta", self.base_th)):
            env.update(zip(names, s[k]))
        for q in self.pn[len(self.base_p):]:
            env[q] = ocp.create_parameter(q)
        for q in self.thn[len(self.base_th):]:
            env[q] = ocp.create_theta(q)
        self.sym = env
        if self.L != ("c", 0.0):
            ocp.L = gen.to_sx(self.L, env)
        if self.V != ("c", 0.0):
            ocp.V = gen.to_sx(self.V, env)
        if self.S != ("c", 0.0):
            ocp.S = gen.to_sx(self.S, env)
        for c in self.ineq:
            ocp.include_time_inequality(gen.to_sx(c["e"], env) - env[c["p"]], when=c["when"])
        for q in self.eq:
            e = gen.to_sx(q["e"], env) - env[q["th"]] if q["kind"] == "theta" else ca.SX(self.timefun(q, m.t))
            ocp.include_time_equality(e, when=q["when"])
        for e, v in zip(self.h_final, self.h_final_v):
            ocp.include_final_time_equality(gen.to_sx(e, env) - v)
        for e, v in zip(self.h, self.h_v):
            ocp.include_equality(gen.to_sx(e, env) - v)
        for e, v in zip(self.h_init, self.h_init_v):
            ocp.include_initial_time_equality(gen.to_sx(e, env) - v)
        if self.delta:
            ocp.delta_u_min, ocp.delta_u_max = gen.dmv(self.du_min), gen.dmv(self.du_max)
        self.given_bounds = given = {"x_min": gen.dmv(self.x_lo), "x_max": gen.dmv(self.x_hi), "y_min": gen.dmv(self.y_lo), "y_max": gen.dmv(self.y_hi),
                                     "u_min": gen.dmv(self.u_lo), "u_max": gen.dmv(self.u_hi)}
        for k, v in given.items():
            setattr(ocp, k, v)
        if self.last_u is not None and d.bool():
            ocp.last_u = gen.dmv(self.last_u)
            self.last_in_problem = True
        else:
            self.last_in_problem = False
        self.declare_opt(ocp, self.popt, self.po_lo, self.po_hi, "p", env)
        self.declare_opt(ocp, self.thopt, self.to_lo, self.to_hi, "theta", env)
        self.ocp = ocp
        return ocp

    @staticmethod
    def some(d, names):
        """none, some or all of the names, in any order"""
        how = d.weighted([(2, 0), (1, 1), (1, 2)])
        return [] if how == 0 else d.perm(d.subset(names) if how == 1 else list(names))

    def bounds_kept(self):
        """the arrays of bounds the problem was given are as they were"""
        for k, w in (("x_min", self.x_lo), ("x_max", self.x_hi), ("y_min", self.y_lo), ("y_max", self.y_hi), ("u_min", self.u_lo), ("u_max", self.u_hi)):
            v = self.given_bounds[k]
            check(v.numel() == len(w) and all(float(a) == float(b) for a, b in zip(gen.arr(v) if len(w) else [], w)), "the given %s was changed" % k, got=v, expected=w)

    def declare_opt(self, ocp, names, lo, hi, kind, env):
        d = self.d
        if not names:
            return
        groups = [list(range(len(names)))] if d.bool() else [[i] for i in range(len(names))]
        for g in groups:
            v = ca.vertcat(*[env[names[i]] for i in g])
            a, b = gen.dmv(lo[g]), gen.dmv(hi[g])
            if kind == "p":
                ocp.set_parameter_as_optimization_parameter(v, new_p_opt_min=a, new_p_opt_max=b)
            else:
                ocp.set_theta_as_optimization_theta(v, new_theta_opt_min=a, new_theta_opt_max=b)

    def method(self, **kw):
        from yaocptool.methods import DirectMethod

        d = self.d
        a = dict(finite_elements=self.N, degree=self.degree, degree_control=self.dc, discretization_scheme=self.scheme)
        if self.last_u is not None and not self.last_in_problem:
            a["last_control_as_parameter"] = True
        a.update(kw)
        return DirectMethod(self.ocp, **a)

    # arguments of a solve call (values of optimization parameters in p / theta are arbitrary)
    def p_arg(self, P):
        return gen.dmv([P[q] for q in self.pn])

    def th_arg(self, TH):
        return gen.thdict(self.d, self.N, lambda el: gen.dmv([TH[el][q] for q in self.thn]))

    # ------------------------------------------------------------ decision vector <-> trajectory
    def layout(self, meth):
        nv = meth.opt_problem.x.numel()
        idx = meth.discretizer.unpack_decision_variables(ca.DM(list(range(nv))))
        x, y, u, eta, po, to = idx
        I = lambda v: [int(k) for k in gen.arr(v)] if v.numel() else []
        self.nv = nv
        self.ix = [[I(v) for v in e] for e in x]
        if self.col:
            self.ix = self.ix[: self.N]  # the last entry repeats the final point
        self.iy = [[I(v) for v in e] for e in y]
        self.iu = [[I(v) for v in e] for e in u]
        self.ipo = I(po)
        self.ito = [I(v) for v in to]
        mod = meth.problem.model
        names = mod.x_names
        cost_name = meth.problem.x_cost[0].name()
        self.order = [names.index(q) for q in self.xn] + [names.index(cost_name)]

    def pack(self, X, Y, U, P, TH):
        v = np.full(self.nv, np.nan)
        for ie, e in zip(self.ix, X):
            for ij, z in zip(ie, e):
                for k, o in enumerate(self.order):
                    v[ij[o]] = z[k]
        for ie, e in zip(self.iy, Y):
            for ij, z in zip(ie, e):
                v[ij] = z
        for ie, e in zip(self.iu, U):
            for ij, z in zip(ie, e):
                v[ij] = z
        for i, q in zip(self.ipo, self.popt):
            v[i] = P[q]
        for ii, T in zip(self.ito, TH):
            for i, q in zip(ii, self.thopt):
                v[i] = T[q]
        return v

    def unpack(self, v, P, TH):
        X = [[np.array([v[ij[o]] for o in self.order]) for ij in ie] for ie in self.ix]
        Y = [[v[ij] for ij in ie] for ie in self.iy]
        U = [[v[ij] for ij in ie] for ie in self.iu]
        P, TH = dict(P), [dict(T) for T in TH]
        for i, q in zip(self.ipo, self.popt):
            P[q] = v[i]
        for ii, T in zip(self.ito, TH):
            for i, q in zip(ii, self.thopt):
                T[q] = v[i]
        return X, Y, U, P, TH

    def expected_bounds(self):
        lo, hi = np.full(self.nv, np.nan), np.full(self.nv, np.nan)

        def put(i, a, b):
            lo[i], hi[i] = a, b

        for ie in self.ix:
            for ij in ie:
                for k, o in enumerate(self.order):
                    put(ij[o], *((self.x_lo[k], self.x_hi[k]) if k < len(self.xn) else (-INF, INF)))
        for names, ii, a, b in (("y", self.iy, self.y_lo, self.y_hi), ("u", self.iu, self.u_lo, self.u_hi)):
            for ie in ii:
                for ij in ie:
                    for k, i in enumerate(ij):
                        put(i, a[k], b[k])
        for k, i in enumerate(self.ipo):
            put(i, self.po_lo[k], self.po_hi[k])
        for ii in self.ito:
            for k, i in enumerate(ii):
                put(i, self.to_lo[k], self.to_hi[k])
        return lo, hi

    def describe(self):
        return ("%s N=%d degree=%d dc=%d t0=%s dt=%s n=%s L=%s V=%s S=%s ineq=%s eq=%s popt=%s thopt=%s delta=%s last_u=%s" % (
            self.scheme, self.N, self.degree, self.dc, self.t0, self.dt, self.sy.n, gen.show(self.L), gen.show(self.V), gen.show(self.S),
            [(gen.show(c["e"]), c["when"]) for c in self.ineq], [(q["kind"], q["when"]) for q in self.eq], self.popt, self.thopt, self.delta,
            self.last_u is not None))


# ---------------------------------------------------------------------------------------------------------------- convex problems
def aff(d, names, t=None, scale=1.0):
    e = ("c", d.num(-1, 1, 0.25))
    for q in list(names) + ([t] if t else []):
        k = d.num(-1, 1, 0.25) * scale
        if k:
            e = ("+", e, ("*", ("c", k), ("v", q)))
    return e


def sq(e, w):
    return ("*", ("c", w), ("*", e, e))


def plus(es):
    out = ("c", 0.0)
    for e in es:
        out = e if out == ("c", 0.0) else ("+", out, e)
    return out


class LQ(Ocp):
    """linear dynamics, strictly convex quadratic costs, affine constraints; feasible by construction"""

    def __init__(self, d, scheme=None, cons=True, max_el=4, min_deg=2, max_deg=4, cost_t=True, **kw):
        kw.setdefault("min_u", 1)
        super().__init__(d, scheme=scheme, nonlin=False, costs=False, cons=False, max_el=max_el, max_deg=max_deg, **kw)
        if self.col:
            self.degree = max(self.degree, min_deg)
            self.dc = min(self.dc, self.degree)
        alln = self.xn + self.yn + self.un + self.pn + self.thn
        W = lambda: d.choice([0.5, 1.0, 2.0])
        L = [sq(("-", ("v", u), ("c", d.num(-1, 1, 0.5))), W()) for u in self.un]
        L += [sq(("v", x), W()) for x in self.xn if d.bool()]
        L += [sq(aff(d, alln, "t" if cost_t else None), W()) for _ in range(d.int(0, 2))]
        L += [sq(("-", ("v", q), ("c", d.num(-1, 1, 0.5))), W()) for q in self.thopt]
        self.L = plus(L)
        V = [sq(aff(d, self.xn + self.pn), W()) for _ in range(d.int(0, 2))] + [sq(("-", ("v", q), ("c", d.num(-1, 1, 0.5))), W()) for q in self.popt]
        self.V = plus(V)
        self.S = plus([sq(aff(d, alln, "t" if cost_t else None), W()) for _ in range(d.int(0, 1))])
        dof = self.N * self.dc * len(self.un)
        if cons:
            for k in range(d.int(0, 2)):
                nm = "pc%d" % k
                self.pn.append(nm)
                self.ineq.append({"e": aff(d, alln, "t"), "p": nm, "when": self.when()})
            if dof >= 2 * self.N and d.int(0, 3) == 0:
                self.thn.append("w0")
                e = aff(d, self.xn[:0] + self.un, "t")
                e = ("+", e, ("v", self.un[0]))
                self.eq.append({"kind": "theta", "e": e, "th": "w0", "when": "end"})
            if dof >= 3 and not self.eq and d.int(0, 2) == 0:
                self.h_final.append(("+", aff(d, self.xn, None, 0.5), ("v", self.xn[0])))
            if len(self.popt) > 1 and d.bool():
                self.h.append(("+", ("v", self.popt[0]), ("v", self.popt[1])))

    def prepare(self):
        super().prepare()
        for c in self.ineq:  # some slack: active or not at the optimum
            self.P[c["p"]] += self.d.choice([0.05, 0.5])

    def reference(self, sub=None, degree=None, x0=None, P=None, TH=None, last_u=False):
        """independent transcription solved with IPOPT directly; returns (J, dict)"""
        P = self.P if P is None else P
        TH = self.TH if TH is None else TH
        x0 = self.x0 if x0 is None else x0
        last_u = self.last_u if last_u is False else last_u
        sy, n = self.sy, self.sy.n
        sub = sub or (1 if self.col else 2 if self.dc <= 3 else 4)  # a control of high degree needs a finer grid
        deg = degree or (self.degree if self.col else 5)
        c, A = radau(deg), butcher(deg)
        w, lb, ub, g, glb, gub, w0 = [], [], [], [], [], [], []

        def var(name, k, lo, hi, g0=0.0):
            v = ca.SX.sym(name, k)
            w.append(v)
            lb.extend(lo)
            ub.extend(hi)
            w0.extend(list(np.full(k, g0)) if np.isscalar(g0) else list(g0))
            return v

        def con(e, lo, hi):
            g.append(e)
            glb.append(lo)
            gub.append(hi)

        free = lambda k: (np.full(k, -INF), np.full(k, INF))
        Ps = dict(P)
        po = var("po", len(self.popt), self.po_lo, self.po_hi, [P[q] for q in self.popt])
        for i, q in enumerate(self.popt):
            Ps[q] = po[i]
        J = 0
        U, X, Y, TO = [], [], [], []
        xk = var("xi", n["x"], *(self.x_lo, self.x_hi), g0=x0)
        for i in range(n["x"]):
            con(xk[i], x0[i], x0[i])
        X.append([xk])
        h = self.dt / sub
        for el in range(self.N):
            T = dict(TH[el])
            to = var("to", len(self.thopt), self.to_lo, self.to_hi, [TH[el][q] for q in self.thopt])
            for i, q in enumerate(self.thopt):
                T[q] = to[i]
            TO.append((to, T))
            us = [var("u", n["u"], self.u_lo, self.u_hi) for _ in range(self.dc)]
            U.append(us)
            uat = lambda tau: us[0] if self.dc == 1 else sum(l * u for l, u in zip(lagrange(radau(self.dc), tau), us))
            if self.delta:
                prev = U[el - 1][0] if el else (ca.DM(last_u) if last_u is not None else None)
                if prev is not None:
                    for i in range(n["u"]):
                        con(us[0][i] - prev[i], self.du_min[i], self.du_max[i])
            Xe, Ye = [xk], []
            for s in range(sub):
                node = self.col or s == sub - 1
                pts, yps, fs, Ls = [], [], [], []
                for j in range(deg):
                    last = j == deg - 1 and s == sub - 1
                    bx = (self.x_lo, self.x_hi) if (self.col or last) else free(n["x"])
                    by = (self.y_lo, self.y_hi) if (self.col or last) else free(n["y"])
                    x, y = var("x", n["x"], *bx), var("y", n["y"], *by)
                    tau = (s + c[j]) / sub
                    t = self.time(el, tau)
                    env = self.env(t, ca.vertsplit(x), ca.vertsplit(y) if n["y"] else [], ca.vertsplit(uat(tau)) if n["u"] else [], Ps, T)
                    pv = ca.vertcat(*[Ps[q] for q in self.base_p])
                    tv = ca.vertcat(*[T[q] for q in self.base_th])
                    uv = uat(tau) if n["u"] else ca.SX(0, 1)
                    f = ca.DM(sy.A) @ x + ca.DM(sy.c + sy.s * math.sin(sy.w * t))
                    r = ca.DM(sy.g + sy.v * math.sin(t)) if n["y"] else None
                    for M, K, z, k in ((sy.E, sy.G, y, n["y"]), (sy.B, sy.K, uv, n["u"]), (sy.C, sy.L, pv, n["p"]), (sy.D, sy.M, tv, n["theta"])):
                        if k:
                            f = f + ca.DM(M) @ z
                            if r is not None:
                                r = r + ca.DM(K) @ z
                    if r is not None:
                        r = r + ca.DM(sy.H) @ x
                        for i in range(n["y"]):
                            con(r[i], 0.0, 0.0)
                    pts.append(x)
                    yps.append(y)
                    fs.append(f)
                    Ls.append(to_num(self.L, env))
                for i in range(deg):
                    e = pts[i] - xk - h * sum(A[i, j] * fs[j] for j in range(deg))
                    for q in range(n["x"]):
                        con(e[q], 0.0, 0.0)
                J = J + h * sum(A[deg - 1, j] * Ls[j] for j in range(deg))
                xk = pts[-1]
                Xe += pts
                Ye += yps
            X.append(Xe)
            Y.append(Ye)
            end = self.env(self.time(el, 1.0), ca.vertsplit(Xe[-1]), ca.vertsplit(Ye[-1]) if n["y"] else [], ca.vertsplit(uat(1.0)), Ps, T)
            J = J + to_num(self.S, end)

            def at(tau):
                if not self.col:
                    return end
                x = sum(l * v for l, v in zip(lagrange(np.concatenate([[0.0], c]), tau), Xe))
                y = sum(l * v for l, v in zip(lagrange(c, tau), Ye)) if n["y"] else None
                return self.env(self.time(el, tau), ca.vertsplit(x), ca.vertsplit(y) if n["y"] else [], ca.vertsplit(uat(tau)), Ps, T)

            for q in self.ineq:
                for e2, tau in self.instants(q["when"]):
                    if e2 == el:
                        con(to_num(q["e"], at(tau)) - P[q["p"]], -INF, 0.0)
            for q in self.eq:
                for e2, tau in self.instants(q["when"]):
                    if e2 == el:
                        con(to_num(q["e"], at(tau)) - TH[el][q["th"]], 0.0, 0.0)
        fin = dict(zip(self.xn, ca.vertsplit(xk)), **Ps)
        J = J + to_num(self.V, fin)
        for e, v in zip(self.h_final, self.h_final_v):
            con(to_num(e, fin) - v, 0.0, 0.0)
        for e, v in zip(self.h, self.h_v):
            con(to_num(e, Ps) - v, 0.0, 0.0)
        x = ca.vertcat(*w)
        s = ca.nlpsol("ref", "ipopt", {"x": x, "f": J, "g": ca.vertcat(*g)},
                      {"ipopt.print_level": 0, "print_time": False, "ipopt.sb": "yes", "ipopt.linear_solver": "mumps", "ipopt.tol": 1e-10})
        r = s(x0=w0, lbx=lb, ubx=ub, lbg=glb, ubg=gub)
        ok = s.stats()["success"]
        rows = [i for i in range(len(glb)) if glb[i] == gub[i]]
        G = np.array(ca.Function("G", [x], [ca.jacobian(ca.vertcat(*g), x)])(r["x"]).full())[rows]
        self.degenerate = bool(np.linalg.matrix_rank(G, tol=1e-6) < len(rows))  # dependent equality constraints: IPOPT may give up
        get = ca.Function("get", [x], [ca.horzcat(*[v for e in U for v in e]) if n["u"] else ca.SX(0, 0), ca.horzcat(*[e[-1] for e in X]), po,
                                       ca.vertcat(*[t for t, _ in TO])])
        u, xs, pov, tov = get(r["x"])
        return {"J": float(r["f"]), "ok": ok, "u": gen.mat(u), "x": gen.mat(xs), "po": gen.arr(pov) if len(self.popt) else np.zeros(0), "to": gen.arr(tov) if self.thopt else np.zeros(0)}


def to_num(e, env):
    """evaluate an AST over mixed numbers / SX"""
    op = e[0]
    if op == "c":
        return float(e[1])
    if op == "v":
        return env[e[1]]
    if op == "sin":
        return ca.sin(to_num(e[1], env))
    a, b = to_num(e[1], env), to_num(e[2], env)
    return a + b if op == "+" else a - b if op == "-" else a * b
