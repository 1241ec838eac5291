"""C22: Kalman filters on models that are linear in the states"""
import casadi as ca
import gen
import numpy as np
from core import Family, check, raises

RULE = ("random models linear in the states (bilinear in controls, parameters and thetas, time-varying inputs, algebraic variables), measurement matrices / functions with direct feedthrough, noise covariances, "
        "initial estimates and measurement histories of 1..4 samples. quadratic measurements for the extended and the polynomial chaos filter. Oracle: the Kalman recursion computed with scipy (exact transition matrix and integration); for the sample based filters in the additive-noise form of the "
        "references they cite, in which the predicted measurement is that of the propagated samples. Non-trivial: at least one update with a non-zero gain")


class Lin:
    def __init__(self, d, dae):
        self.n, self.nu = d.int(1, 3), d.int(1, 2)
        self.ny = d.int(0, 2) if dae else 0
        self.np, self.nth = d.int(0, 1), d.int(0, 1)
        n, ny = self.n, self.ny
        R = lambda a, b, w=1.0: np.array([[d.num(-w, w, 0.25) for _ in range(b)] for _ in range(a)]).reshape(a, b)
        self.A = R(n, n, 0.75) - 0.5 * np.eye(n)
        bil = d.bool()
        mk = lambda k: [R(n, n, 0.5) if bil else np.zeros((n, n)) for _ in range(k)]
        self.Nu, self.Np, self.Nth = mk(self.nu), mk(self.np), mk(self.nth)
        self.E, self.B = R(n, ny, 0.5), R(n, self.nu)
        self.Bp, self.Bth = R(n, self.np), R(n, self.nth)
        self.s, self.w = (R(n, 1)[:, 0] if d.bool() else np.zeros(n)), d.choice([1.0, 2.0])
        self.G = R(ny, ny, 0.25) + 2.0 * np.eye(ny)
        self.H, self.K, self.g = R(ny, n), R(ny, self.nu), R(ny, 1)[:, 0]

    def model(self):
        from yaocptool.modelling import SystemModel

        m = SystemModel(name="m")
        x = m.create_state("x", self.n)
        u = m.create_control("u", self.nu)
        y = m.create_algebraic_variable("y", self.ny) if self.ny else None
        p = m.create_parameter("p", self.np) if self.np else None
        th = m.create_theta("th", self.nth) if self.nth else None
        M = ca.DM(self.A)
        for j in range(self.nu):
            M = M + u[j] * ca.DM(self.Nu[j])
        e = ca.DM(self.B) @ u + ca.DM(self.s) * ca.sin(self.w * m.t)
        if self.np:
            M = M + p[0] * ca.DM(self.Np[0])
            e = e + ca.DM(self.Bp) @ p
        if self.nth:
            M = M + th[0] * ca.DM(self.Nth[0])
            e = e + ca.DM(self.Bth) @ th
        if self.ny:
            e = e + ca.DM(self.E) @ y
        m.include_equations(ode=M @ x + e, x=x)
        if self.ny:
            m.include_equations(alg=ca.DM(self.G) @ y + ca.DM(self.H) @ x + ca.DM(self.K) @ u + ca.DM(self.g))
        return m

    def step(self, t, ts, x, u, p, th):
        """transition matrix, next state, map and value of [x; y]"""
        from scipy.integrate import solve_ivp
        from scipy.linalg import expm

        M = self.A + sum((u[j] * self.Nu[j] for j in range(self.nu)), np.zeros((self.n, self.n)))
        c = self.B @ u
        if self.np:
            M, c = M + p[0] * self.Np[0], c + self.Bp @ p
        if self.nth:
            M, c = M + th[0] * self.Nth[0], c + self.Bth @ th
        Y, y0 = np.zeros((0, self.n)), np.zeros(0)
        if self.ny:
            Y, y0 = -np.linalg.solve(self.G, self.H), -np.linalg.solve(self.G, self.K @ u + self.g)
            M, c = M + self.E @ Y, c + self.E @ y0
        r = solve_ivp(lambda tt, xx: M @ xx + c + self.s * np.sin(self.w * tt), (t, t + ts), x, rtol=1e-10, atol=1e-11)
        xf = r.y[:, -1]
        return expm(M * ts), xf, np.vstack([np.eye(self.n), Y]), np.concatenate([xf, Y @ xf + y0])


def spd(d, n, w):
    a = np.array([d.vec(n, -1, 1) for _ in range(n)]).reshape(n, n)
    return w * (a @ a.T + 0.5 * np.eye(n))


def filt(kind):
    def run(d):
        from yaocptool.estimation import ExtendedKalmanFilter, PCEKalmanFilter, UnscentedKalmanFilter

        S = Lin(d, kind != "ekf")
        n, na = S.n, S.n + S.ny
        nm = d.int(1, 3)
        C = np.array([[d.num(-1, 1, 0.5) for _ in range(na)] for _ in range(nm)])
        D = np.array([[d.num(-1, 1, 0.5) for _ in range(S.nu)] for _ in range(nm)]) if d.bool() else np.zeros((nm, S.nu))
        x, P = np.array(d.vec(n, -1.5, 1.5)), spd(d, n, d.choice([0.1, 1.0]))
        Q = spd(d, n, d.choice([0.01, 0.2])) if d.bool() else np.zeros((n, n))
        R = spd(d, nm, d.choice([0.1, 1.0]))
        t, ts = d.choice([0.0, 1.0]), d.choice([0.25, 0.5, 1.0])
        p, th = np.array(d.vec(S.np, -1, 1)), np.array(d.vec(S.nth, -1, 1))
        m = S.model()
        kw = dict(t_s=ts, x_mean=gen.dmv(x), p_k=ca.DM(P), r_n=ca.DM(R))
        if t or d.bool():
            kw["t"] = t
        if np.any(Q) or d.bool():
            kw["r_v"] = ca.DM(Q)
        if S.np:
            kw["p"] = gen.dmv(p)
        if S.nth:
            kw["theta"] = gen.dmv(th) if kind == "ekf" or d.bool() else {0: gen.dmv(th)}
        if S.ny and d.bool():
            kw["y_guess"] = ca.DM.zeros(S.ny)
        quad = kind != "ukf" and d.int(0, 2) == 0
        b = np.array([d.num(-0.5, 0.5, 0.25) for _ in range(nm)]) if quad else np.zeros(nm)
        e = np.array([[d.num(-1, 1, 0.5) for _ in range(na)] for _ in range(nm)]) if quad else np.zeros((nm, na))
        h = lambda z, u: C @ z + D @ u + b * (e @ z) ** 2
        if d.bool() and not quad:
            kw["c_matrix"] = ca.DM(C)
            if np.any(D):
                kw["d_matrix"] = ca.DM(D)
        else:
            sx, sy, su = ca.SX.sym("a", n), ca.SX.sym("b", S.ny), ca.SX.sym("c", S.nu)
            kw["h_function"] = ca.Function("h", [sx, sy, su], [ca.DM(C) @ ca.vertcat(sx, sy) + ca.DM(D) @ su + ca.DM(b) * (ca.DM(e) @ ca.vertcat(sx, sy)) ** 2])
            d.label("h_function")
        tol = 2e-4
        if kind == "pce":
            order = d.int(2 if quad else 1, 2)
            kw["pc_order"] = order
            from math import comb
            npar = comb(n + order, order)
            k = npar + d.int(0, 8)
            if k != npar or d.bool():
                kw["n_samples"] = k
            tol = 2e-3
            cls = PCEKalmanFilter
            check(raises(lambda: cls(m, **dict(kw, n_samples=npar - 1)), ValueError), "fewer samples than polynomial coefficients accepted")
        else:
            cls = ExtendedKalmanFilter if kind == "ekf" else UnscentedKalmanFilter
        d.note("%s n=%d ny=%d Q=%s C=%s D=%s P=%s" % (kind, n, S.ny, Q.tolist(), C.tolist(), D.tolist(), P.tolist()))
        if d.int(0, 3) == 0:
            drop = d.choice([["x_mean"], ["p_k"], ["c_matrix", "h_function"]])
            d.label("without " + drop[0])
            check(raises(lambda: cls(m, **{q: v for q, v in kw.items() if q not in drop}).estimate(t + ts, ca.DM.zeros(nm), ca.DM.zeros(S.nu))), "a filter without %s is accepted" % drop[0])
        if d.bool():
            kw["x_mean"] = [float(v) for v in x]
        if S.np and d.bool():
            kw["p"] = [float(v) for v in p]
        f = cls(m, **kw)
        xs, Ps, ms, tk = [], [], [], []
        gain = False
        for k in range(d.int(1, 4)):
            u, y = np.array(d.vec(S.nu, -1, 1)), np.array(d.vec(nm, -2, 2))
            got = f.estimate(t + ts, gen.dmv(y), gen.dmv(u))
            F, xp, L, xa = S.step(t, ts, x, u, p, th)
            t = t + ts
            P0 = F @ P @ F.T
            if kind == "ekf":
                Pa = P0 + Q
                J = C + (2 * b * (e @ xp)).reshape(-1, 1) * e
                Sy = J @ Pa @ J.T + R
                K = Pa @ J.T @ np.linalg.inv(Sy)
                x = xp + K @ (y - h(xp, u))
                P = Pa - K @ Sy @ K.T
                post = x
            else:
                Pa = L @ P0 @ L.T
                # moments of a quadratic measurement of a normal variable
                J = C + (2 * b * (e @ xa)).reshape(-1, 1) * e
                Sy = J @ Pa @ J.T + 2 * np.outer(b, b) * (e @ Pa @ e.T) ** 2 + R
                K = Pa @ J.T @ np.linalg.inv(Sy)
                post = xa + K @ (y - h(xa, u) - b * np.diag(e @ Pa @ e.T))
                x = post[:n]
                P = P0 + Q - (K @ Sy @ K.T)[:n, :n]
            gain = gain or np.max(np.abs(K)) > 1e-3
            scale = max(1.0, np.max(np.abs(x)))
            check(gen.arr(got[0]).shape == (n,) and gen.close(gen.arr(got[0]), x, tol * scale), "state estimate", step=k, got=got[0], expected=x)
            check(gen.mat(got[1]).shape == (n, n) and gen.close(gen.mat(got[1]), P, tol * max(1.0, np.max(np.abs(P)))), "covariance of the estimate", step=k, got=got[1], expected=P)
            check(gen.close(gen.arr(f.x_mean), gen.arr(got[0]), 1e-12) and gen.close(gen.mat(f.p_k), gen.mat(got[1]), 1e-12), "the estimate kept is not the one returned")
            xs.append(gen.arr(got[0]))
            Ps.append(gen.mat(got[1]).flatten("F"))
            ms.append(h(post, u))
            tk.append(t)
        for e, v, q in (("x", xs, 1e-12), ("P", Ps, 1e-12)) + ((("meas", ms, 10 * tol),) if kind != "pce" else ()):
            tt, vv = f.dataset.get_entry(e)
            check(gen.close(gen.arr(tt), tk, 1e-12) and gen.close(gen.mat(vv), np.array(v).T, q * max(1.0, np.max(np.abs(v)))), "recorded %s" % e, got=vv, expected=np.array(v).T)
        if quad:
            d.label("quadratic measurement")
        d.label("process noise" if np.any(Q) else "no process noise")
        d.label("algebraic" if S.ny else "ode")
        if gain:
            d.interesting()

    return run


def cholupdate(d):
    """rank-one update of a triangular factor: R'^T R' = R^T R +- x x^T"""
    from yaocptool.estimation import UnscentedKalmanFilter

    n = d.int(1, 5)
    A = spd(d, n, d.choice([0.1, 1.0, 5.0]))
    R = np.linalg.cholesky(A).T.copy()
    x = np.array(d.vec(n, -1.5, 1.5))
    sign = d.choice(["+", "-"])
    if sign == "-":  # the difference has to stay positive definite
        q = float(x @ np.linalg.solve(A, x))
        if q > 0.9:
            x = x * np.sqrt(0.9 / q)
    d.label(sign)
    d.interesting(n > 1 and np.count_nonzero(x) > 1)
    d.note("A=%s x=%s %s" % (A.tolist(), x.tolist(), sign))
    got = np.asarray(UnscentedKalmanFilter.cholupdate(R.copy(), x.copy(), sign), float)
    exp = A + np.outer(x, x) * (1 if sign == "+" else -1)
    check(gen.close(np.tril(got, -1).flatten(), np.zeros(n * n), 1e-12), "the updated factor is not triangular", got=got)
    check(gen.close((got.T @ got).flatten(), exp.flatten(), 1e-9), "updated factor", got=got.T @ got, expected=exp)
    check(raises(lambda: UnscentedKalmanFilter.cholupdate(R.copy(), x.copy(), "x"), ValueError), "unknown sign accepted")


FAMILIES = [Family("cholupdate", cholupdate, 200, 2000, shards=1, tshards=1),
    Family("ekf", filt("ekf"), 600, 3600, shards=3, tshards=8),
    Family("ukf", filt("ukf"), 600, 3600, shards=3, tshards=8),
    Family("pce", filt("pce"), 480, 2880, shards=3, tshards=8),
]
