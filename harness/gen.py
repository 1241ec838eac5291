"""generators and reference evaluators shared by the property modules"""
import math

import casadi as ca
import numpy as np


# ---------------------------------------------------------------- expressions
# an expression is a nested tuple; leaves: ("c", value) / ("v", name)
def expr(d, names, depth=2, t=None):
    """a smooth expression over `names` (and optionally the time name t)"""
    leaves = list(names) + ([t] if t else [])
    kind = d.int(0, 6) if depth > 0 else d.int(0, 1)
    if not leaves or kind == 0:
        return ("c", d.num(-2, 2, 0.25))
    if kind == 1:
        return ("v", d.choice(leaves))
    if kind in (2, 3):
        return ("+", expr(d, names, depth - 1, t), expr(d, names, depth - 1, t))
    if kind == 4:
        return ("*", expr(d, names, depth - 1, t), expr(d, names, depth - 1, t))
    if kind == 5:
        return ("sin", expr(d, names, depth - 1, t))
    return ("-", expr(d, names, depth - 1, t), ("v", d.choice(leaves)))


def to_sx(e, env, cls=ca.SX):
    op = e[0]
    if op == "c":
        return cls(e[1])
    if op == "v":
        return env[e[1]]
    if op == "sin":
        return ca.sin(to_sx(e[1], env, cls))
    a, b = to_sx(e[1], env, cls), to_sx(e[2], env, cls)
    return a + b if op == "+" else a - b if op == "-" else a * b


def evalf(e, env):
    op = e[0]
    if op == "c":
        return float(e[1])
    if op == "v":
        return float(env[e[1]])
    if op == "sin":
        return math.sin(evalf(e[1], env))
    a, b = evalf(e[1], env), evalf(e[2], env)
    return a + b if op == "+" else a - b if op == "-" else a * b


def subst(e, m):
    """replace names by expressions"""
    op = e[0]
    if op == "c":
        return e
    if op == "v":
        return m.get(e[1], e)
    return (op,) + tuple(subst(a, m) for a in e[1:])


def expr_vars(e, acc=None):
    acc = set() if acc is None else acc
    if e[0] == "v":
        acc.add(e[1])
    elif e[0] != "c":
        for a in e[1:]:
            expr_vars(a, acc)
    return acc


def show(e):
    op = e[0]
    if op in "cv":
        return str(e[1])
    if op == "sin":
        return "sin(%s)" % show(e[1])
    return "(%s%s%s)" % (show(e[1]), op, show(e[2]))


# ---------------------------------------------------------------- numerics
def arr(m):
    """DM / float / list -> flat numpy array (column major)"""
    if isinstance(m, (int, float)):
        return np.array([float(m)])
    return np.array(ca.DM(m).full(), dtype=float).flatten(order="F")


def mat(m):
    return np.array(ca.DM(m).full(), dtype=float)


def close(a, b, tol=1e-7):
    a, b = np.atleast_1d(np.asarray(a, dtype=float)), np.atleast_1d(np.asarray(b, dtype=float))
    if a.shape != b.shape:
        return False
    fin = np.isfinite(a) & np.isfinite(b)
    if not np.array_equal(a[~fin], b[~fin]):
        return False
    return bool(np.all(np.abs(a[fin] - b[fin]) <= tol * (1 + np.abs(b[fin]) + np.abs(a[fin]))))


def sx_eval(ex, syms, vals):
    """value of an SX expression with every symbol in syms (list of SX scalars) given a value.
    Raises if another symbol is free."""
    if ex.numel() == 0:
        return np.zeros(0)
    f = ca.Function("f", [ca.vertcat(*syms)] if syms else [], [ca.densify(ex)])
    return arr(f(ca.DM([float(v) for v in vals]))) if syms else arr(f()["o0"])


def free_names(ex):
    return sorted(s.name() for s in ca.symvar(ex))


POINTS = (0.3, -0.7, 1.1, 0.9, -1.3, 0.45, 1.7, -0.2, 0.65, -1.9, 0.15, 1.35)


def point(i, k):
    """deterministic generic value number i of evaluation point k"""
    return POINTS[(i * 5 + k * 3) % len(POINTS)] + 0.137 * i - 0.211 * k


# ---------------------------------------------------------------- well-posed systems
class Sys:
    """xdot = A x + E y + B u + C p + D th + c + s*sin(w t) [+ n*sin(x_j)];
       0    = G y + H x + K u + L p + M th + g + v*sin(t)   (G strictly diagonally dominant, index 1)"""

    KEYS = ("x", "y", "u", "p", "theta")

    def __init__(self, d, max_x=3, max_y=2, max_u=2, max_p=2, max_th=2, min_x=1, min_u=0, min_y=0, nonlin=True, timevar=True, stable=True):
        self.n = {"x": d.int(min_x, max_x), "y": d.int(min_y, max_y), "u": d.int(min_u, max_u), "p": d.int(0, max_p), "theta": d.int(0, max_th)}
        n = self.n
        q = 0.25

        def m(r, c, lo=-1, hi=1):
            return np.array([[d.num(lo, hi, q) for _ in range(c)] for _ in range(r)], dtype=float).reshape(r, c)

        nx, ny = n["x"], n["y"]
        self.A = m(nx, nx)
        if stable:
            for i in range(nx):
                self.A[i, i] = -abs(self.A[i, i]) - 0.25
        self.E = m(nx, ny)
        self.B, self.C, self.D = m(nx, n["u"]), m(nx, n["p"]), m(nx, n["theta"])
        self.c = m(nx, 1)[:, 0]
        self.timevar = timevar and d.bool()
        self.s = m(nx, 1)[:, 0] if self.timevar else np.zeros(nx)
        self.w = d.choice([1.0, 2.0, 0.5]) if self.timevar else 1.0
        self.nl = [(d.int(0, nx - 1), d.num(-0.5, 0.5, q)) for _ in range(nx)] if (nonlin and d.bool()) else None
        self.G = m(ny, ny, -0.5, 0.5)
        for i in range(ny):
            self.G[i, i] = d.choice([1.0, -1.0]) * (np.sum(np.abs(self.G[i])) + 0.5 + abs(self.G[i, i]))
        self.H, self.K = m(ny, nx), m(ny, n["u"])
        self.L, self.M = m(ny, n["p"]), m(ny, n["theta"])
        self.g = m(ny, 1)[:, 0]
        self.v = m(ny, 1)[:, 0] if self.timevar else np.zeros(ny)

    # symbolic
    def ode_sx(self, s, t):
        e = []
        for i in range(self.n["x"]):
            r = float(self.c[i]) + (float(self.s[i]) * ca.sin(self.w * t) if self.s[i] else 0)
            for M_, k in ((self.A, "x"), (self.E, "y"), (self.B, "u"), (self.C, "p"), (self.D, "theta")):
                for j in range(self.n[k]):
                    if M_[i, j]:
                        r = r + float(M_[i, j]) * s[k][j]
            if self.nl and self.nl[i][1]:
                r = r + self.nl[i][1] * ca.sin(s["x"][self.nl[i][0]])
            e.append(ca.SX(r))
        return e

    def alg_sx(self, s, t):
        e = []
        for i in range(self.n["y"]):
            r = float(self.g[i]) + (float(self.v[i]) * ca.sin(t) if self.v[i] else 0)
            for M_, k in ((self.G, "y"), (self.H, "x"), (self.K, "u"), (self.L, "p"), (self.M, "theta")):
                for j in range(self.n[k]):
                    if M_[i, j]:
                        r = r + float(M_[i, j]) * s[k][j]
            e.append(ca.SX(r))
        return e

    def build(self, name="m", prefix=""):
        from yaocptool.modelling import SystemModel

        m = SystemModel(name=name)
        s = {"x": [m.create_state(prefix + "x%d" % i) for i in range(self.n["x"])],
             "y": [m.create_algebraic_variable(prefix + "y%d" % i) for i in range(self.n["y"])],
             "u": [m.create_control(prefix + "u%d" % i) for i in range(self.n["u"])],
             "p": [m.create_parameter(prefix + "p%d" % i) for i in range(self.n["p"])],
             "theta": [m.create_theta(prefix + "th%d" % i) for i in range(self.n["theta"])]}
        m.include_equations(ode=self.ode_sx(s, m.t), x=s["x"])
        if self.n["y"]:
            m.include_equations(alg=self.alg_sx(s, m.t))
        return m, s

    # numeric
    def yval(self, t, x, u, p, th):
        if not self.n["y"]:
            return np.zeros(0)
        rhs = self.H @ x + self.K @ u + self.L @ p + self.M @ th + self.g + self.v * math.sin(t)
        return np.linalg.solve(self.G, -rhs)

    def f(self, t, x, u, p, th):
        y = self.yval(t, x, u, p, th)
        r = self.A @ x + self.E @ y + self.B @ u + self.C @ p + self.D @ th + self.c + self.s * math.sin(self.w * t)
        if self.nl:
            r = r + np.array([k * math.sin(x[j]) for j, k in self.nl])
        return r

    def solve(self, x0, t0, tf, u, p, th):
        """reference state at tf; u is a vector or a callable u(t, x)"""
        from scipy.integrate import solve_ivp

        x0 = np.asarray(x0, float)
        uf = u if callable(u) else (lambda t, x: u)
        r = solve_ivp(lambda t, x: self.f(t, x, np.asarray(uf(t, x), float), p, th), (t0, tf), x0, method="DOP853", rtol=1e-9, atol=1e-10)
        return r.y[:, -1]

    def vals(self, d, k, lo=-1.5, hi=1.5):
        return np.array(d.vec(self.n[k], lo, hi), dtype=float)

    def describe(self):
        return "n=%s timevar=%s nl=%s A=%s" % (self.n, self.timevar, bool(self.nl), self.A.tolist())


def dmv(a):
    """column DM (dense), also for empty vectors"""
    a = list(np.atleast_1d(np.asarray(a, float)).flatten())
    return ca.DM(a) if a else ca.DM(0, 1)


def thdict(d, n, f):
    """{element: f(element)}, the keys in any order (it means nothing)"""
    ks = list(range(n))
    if n > 1 and d.int(0, 2) == 0:
        ks = d.perm(ks)
        d.label("theta keys in another order")
    return {k: f(k) for k in ks}
