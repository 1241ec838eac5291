"""C24: distributed solution of networks"""
import random
import sys
import types

import casadi as ca
import gen
import numpy as np
import ocpgen
from core import Discard, Family, check


class _Future:
    def __init__(self, v):
        self.v = v

    def result(self, timeout=None):
        return self.v


class Proxy:
    """stand-in for erised.Proxy (a remote object), in this process: calls give futures, retrieve() gives the value"""

    def __init__(self, obj=None, **kw):
        object.__setattr__(self, "_o", obj)

    def __getattr__(self, k):
        if k == "retrieve":
            return lambda: _Future(self._o)
        if k in ("terminate", "wait_all_futures"):
            return lambda *a, **b: None
        return Proxy(getattr(self._o, k))

    def __setattr__(self, k, v):
        setattr(self._o, k, v)

    def __call__(self, *a, **kw):
        return _Future(self._o(*a, **kw))


def library():
    if "erised" not in sys.modules:
        try:
            import erised  # noqa
        except ImportError:
            m = types.ModuleType("erised")
            m.Proxy = Proxy
            sys.modules["erised"] = m
    import logging

    import yaocptool.methods.network.distributedaugmetedlagrangian as D
    from yaocptool.methods.network.bipartite_jacobi_admm import BipartiteJacobiADMM

    logging.disable(logging.CRITICAL)
    return D.DistributedAugmentedLagrangian, BipartiteJacobiADMM


class Part:
    """one node: states x, free controls u, coupling inputs w, outputs y = H x + g + K u"""

    def __init__(self, d, k, nin, nout):
        self.k, self.nx, self.nu, self.nin, self.ny = k, d.int(1, 2), d.int(0, 1), nin, nout
        R = lambda a, b, w=1.0: np.array([[d.num(-w, w, 0.25) for _ in range(b)] for _ in range(a)]).reshape(a, b)
        n = self.nx
        self.A = R(n, n, 0.5) - 0.5 * np.eye(n)
        self.B, self.E = R(n, self.nu), R(n, nin)
        self.b, self.s = R(n, 1)[:, 0], R(n, 1, 0.5)[:, 0]
        self.H, self.K, self.g = R(nout, n), R(nout, self.nu, 0.5), R(nout, 1)[:, 0]
        self.x0 = np.array(d.vec(n, -1, 1))
        self.q = [d.choice([0.5, 1.0]) for _ in range(n)]
        self.r = [d.num(-1, 1, 0.5) for _ in range(n)]
        self.ru = [d.num(-1, 1, 0.5) for _ in range(self.nu)]
        self.qw = [d.choice([0.25, 1.0]) for _ in range(nin)]
        self.rw = [d.num(-1, 1, 0.5) for _ in range(nin)]
        self.qy = [d.choice([0.0, 0.5]) for _ in range(nout)]
        self.qf = d.choice([0.0, 0.5])
        self.ub = d.choice([None, None, (-0.5, 0.5)]) if self.nu else None
        self.xb = d.choice([None, None, None, 1.5])
        self.wb = [d.choice([None, None, None, (-0.75, 0.75)]) for _ in range(nin)]
        self.yb = [d.choice([None, None, None, 1.5]) for _ in range(nout)]
        # a control tied by a time equality of the node's own: e = c x_0 + h t
        self.eq = (d.choice([0.5, -1.0]), d.choice([0.0, 0.5])) if d.int(0, 2) == 0 else None

    def names(self):
        k = self.k
        return (["x%d_%d" % (k, i) for i in range(self.nx)], ["y%d_%d" % (k, i) for i in range(self.ny)], ["u%d_%d" % (k, i) for i in range(self.nu)], ["w%d_%d" % (k, i) for i in range(self.nin)])

    def ode(self, x, u, w, t):
        return [sum([self.A[i, j] * x[j] for j in range(self.nx)] + [self.B[i, j] * u[j] for j in range(self.nu)] + [self.E[i, j] * w[j] for j in range(self.nin)]) + self.b[i] + self.s[i] * ca.sin(2 * t) for i in range(self.nx)]

    def out(self, x, u):
        return [sum([self.H[i, j] * x[j] for j in range(self.nx)] + [self.K[i, j] * u[j] for j in range(self.nu)]) + self.g[i] for i in range(self.ny)]

    def L(self, x, y, u, w):
        return (sum(self.q[i] * (x[i] - self.r[i]) ** 2 for i in range(self.nx)) + sum((u[i] - self.ru[i]) ** 2 for i in range(self.nu))
                + sum(self.qw[i] * (w[i] - self.rw[i]) ** 2 for i in range(self.nin)) + sum(self.qy[i] * y[i] ** 2 for i in range(self.ny)))

    def V(self, x):
        return self.qf * x[0] ** 2

    def own(self, x, t):
        return self.eq[0] * x[0] + self.eq[1] * t


class Middle:
    """an intermediary node between an output and an input, and its closed-form solution"""

    nx = nu = 0
    nin = ny = 1

    def __init__(self, k, yn, wn, M):
        self.k, self.y, self.w, self.M = k, "Dummy_" + wn, "Dummy_" + yn, M
        self.ein, self.eout = [], []

    def names(self):
        return [], [self.y], [], [self.w]

    def __call__(self, P, NU, MU):
        v = ((MU[0] * P[0] - NU[0] + MU[1] * P[1] + NU[1]) / (MU[0] + MU[1])).reshape(1, self.M)
        z = np.zeros((0, self.M))
        return {"ok": True, "J": 0.0, "x": z, "y": v, "u": z, "w": v}


def draw_net(d, single=False):
    """parts, edges [(i, output, j, input)]"""
    n = d.int(2, 3)
    pairs = [(i, j) for i in range(n) for j in range(n) if i != j]
    edges, nin, nout = [], [0] * n, [0] * n
    for (i, j) in d.perm(pairs)[:d.int(1, n)]:
        for _ in range(1 if single else d.weighted([(3, 1), (1, 2)])):
            edges.append((i, nout[i], j, nin[j]))
            nout[i] += 1
            nin[j] += 1
    if nout[0] and d.int(0, 3) == 0 and not single:  # an output used twice
        j = d.int(1, n - 1)
        edges.append((0, 0, j, nin[j]))
        nin[j] += 1
    if not all(a + b for a, b in zip(nin, nout)):
        raise Discard()
    return [Part(d, k, nin[k], nout[k]) for k in range(n)], edges


def limits(parts):
    lo, hi = {}, {}
    for p in parts:
        xn, yn, un, wn = p.names()
        if p.xb:
            for q in xn:
                lo[q], hi[q] = -p.xb, p.xb
        if p.ub:
            for q in un:
                lo[q], hi[q] = p.ub
        for q, b in zip(wn, p.wb):
            if b:
                lo[q], hi[q] = b
        for q, b in zip(yn, p.yb):
            if b:
                hi[q] = b
    return lo, hi


def composed(parts, edges, N, deg, t0, dt):
    """the problem of the whole network, in one model"""
    from yaocptool.methods import DirectMethod
    from yaocptool.modelling import OptimalControlProblem, SystemModel

    m = SystemModel(name="whole")
    S = []
    for p in parts:
        xn, yn, un, wn = p.names()
        S.append(([m.create_state(q) for q in xn], [m.create_algebraic_variable(q) for q in yn], [m.create_control(q) for q in un], [m.create_algebraic_variable(q) for q in wn]))
    L = V = 0
    for p, (x, y, u, w) in zip(parts, S):
        alg = [a - b for a, b in zip(y, p.out(x, u))]
        m.include_equations(ode=ca.vertcat(*p.ode(x, u, w, m.t)), x=ca.vertcat(*x))
        if alg:
            m.include_equations(alg=ca.vertcat(*alg))
        L, V = L + p.L(x, y, u, w), V + p.V(x)
        if p.eq:
            L = L + (p.own(x, m.t) - 0.5) ** 2
    m.include_equations(alg=ca.vertcat(*[S[j][3][b] - S[i][1][a] for i, a, j, b in edges]))
    lo, hi = limits(parts)
    f = lambda names, dd, v: ca.DM([dd.get(q, v) for q in names])
    kw = {}
    o = OptimalControlProblem(m, x_0=gen.dmv(np.concatenate([p.x0 for p in parts])), t_0=t0, t_f=t0 + N * dt, L=L, V=V, x_min=f(m.x_names, lo, -np.inf), x_max=f(m.x_names, hi, np.inf),
                              y_min=f(m.y_names, lo, -np.inf), y_max=f(m.y_names, hi, np.inf), u_min=f(m.u_names, lo, -np.inf), u_max=f(m.u_names, hi, np.inf))
    r = DirectMethod(o, finite_elements=N, degree=deg, degree_control=deg, discretization_scheme="collocation", initial_guess_heuristic="problem_info").solve()
    return r


def network(d, parts, edges, N, t0, dt, lo, hi):
    from yaocptool.modelling import Network, OptimalControlProblem, SystemModel

    nodes, S, guess = [], [], {}
    net = Network(name="net")
    for p in parts:
        xn, yn, un, wn = p.names()
        m = SystemModel(name="m%d" % p.k)
        x = [m.create_state(q) for q in xn]
        y = [m.create_algebraic_variable(q) for q in yn]
        c = {}
        for q in d.perm(un + wn):
            c[q] = m.create_control(q)
        u, w = [c[q] for q in un], [c[q] for q in wn]
        m.include_equations(ode=ca.vertcat(*p.ode(x, u, w, m.t)), x=ca.vertcat(*x))
        if y:
            m.include_equations(alg=ca.vertcat(*[a - b for a, b in zip(y, p.out(x, u))]))
        f = lambda names, dd, v: ca.DM([dd.get(q, v) for q in names])
        L = p.L(x, y, u, w)
        if p.eq:
            e = m.create_control("e%d" % p.k)
            L = L + (e - 0.5) ** 2
        kw = {}
        if d.int(0, 2) == 0:
            guess.update(zip(m.y_names, d.vec(len(yn), -1, 1)))
            guess.update(zip(m.u_names, d.vec(len(m.u_names), -0.5, 0.5)))
            kw["y_guess"], kw["u_guess"] = f(m.y_names, guess, 0.0), f(m.u_names, guess, 0.0)
        o = OptimalControlProblem(m, x_0=gen.dmv(p.x0), t_0=t0, t_f=t0 + N * dt, L=L, V=p.V(x), x_min=f(m.x_names, lo, -np.inf), x_max=f(m.x_names, hi, np.inf),
                                  y_min=f(m.y_names, lo, -np.inf), y_max=f(m.y_names, hi, np.inf), u_min=f(m.u_names, lo, -np.inf), u_max=f(m.u_names, hi, np.inf), **kw)
        if p.eq:
            o.include_time_equality(e - p.own(x, m.t))
        nodes.append(net.create_node("node%d" % p.k, problem=o))
        S.append((x, y, u, w))
    for i, a, j, b in d.perm(edges):
        net.connect(S[i][1][a], S[j][3][b], nodes[i], nodes[j])
    return net, nodes, guess


def traj(r, name):
    """values by element and point of a variable"""
    for data, names in ((r.x_data, r.x_names), (r.y_data, r.y_names), (r.u_data, r.u_names)):
        if name in list(names):
            i = list(names).index(name)
            return np.array([gen.arr(v)[i] for e in data["values"] for v in e])
    raise KeyError(name)


def grid(d):
    return d.int(1, 3), d.int(1, 3), d.choice([0.0, 1.0]), d.choice([0.25, 0.5])


def draw_order(d, nodes):
    """blocks: None, or the nodes in groups of any order"""
    if d.bool():
        return None
    ks = d.perm(list(range(len(nodes))))
    cut = d.int(1, len(ks))
    return {i: [nodes[k] for k in g] for i, g in enumerate([ks[:cut], ks[cut:]]) if g}


def converge(d):
    """the inner loop solved: the method of multipliers of the whole network"""
    DAL, _ = library()
    from yaocptool.methods import DirectMethod

    parts, edges = draw_net(d)
    N, deg, t0, dt = grid(d)
    lo, hi = limits(parts)
    net, nodes, _ = network(d, parts, edges, N, t0, dt, lo, hi)
    rule = d.choice(["constant", "bounded-increase", "primal", "primal-dual"])
    opts = dict(degree=deg, finite_elements=N, max_iter_outer=60, max_iter_inner=30, inner_loop_tol=1e-9, abs_tol=1e-5, block_choice_method=d.choice(["cyclic", "sample"]),
                al_options=dict(mu_0=d.choice([2.0, 4.0]), mu_max=100.0, beta=1.5, mu_update_rule=rule))
    blocks = draw_order(d, nodes)
    random.seed(d.int(0, 1000))
    d.note("%d parts edges=%s N=%d deg=%d %s" % (len(parts), edges, N, deg, opts))
    d.label(rule)
    ref = composed(parts, edges, N, deg, t0, dt)
    if not ref.success:
        d.label("infeasible")
        return
    md = DAL(net, DirectMethod, {"discretization_scheme": "collocation", "degree_control": deg, "initial_guess_heuristic": "problem_info"}, blocks=blocks, options=opts)
    r = md.solve()
    err = np.nanmax(np.asarray(r.constraint_violations))
    J, J0 = float(r.objective), float(ref.objective_opt_problem)
    gaps = max(np.max(np.abs(traj(r.results[nodes[i]], "y%d_%d" % (i, a)) - traj(r.results[nodes[j]], "w%d_%d" % (j, b)))) for i, a, j, b in edges)
    check(abs(gaps - err) < 1e-6 + 1e-3 * err, "reported violation of the connections", got=err, expected=gaps)
    if not err < 1e-5 or r.number_of_iterations["inner"] >= 29 and abs(J0) > 1e-6:
        d.label("limit of iterations")
        return
    big = max(1.0, max(np.max(np.abs(traj(ref, q))) for p in parts for n in p.names() for q in n))
    for p in parts:
        for n in p.names():
            for q in n:
                g, e = traj(r.results[nodes[p.k]], q), traj(ref, q)
                check(gen.close(g, e, 2e-2 * big), "trajectory of a node is not the one of the whole problem", variable=q, got=g, expected=e)
    check(abs(J - J0) < 1e-3 * max(1.0, abs(J0)), "objective of the network", got=J, expected=J0)
    d.label("converged")
    d.interesting()


class Sub:
    """transcription of the augmented problem of one node: coupling values, multipliers and penalties as parameters"""

    def __init__(self, p, edges, N, deg, t0, dt, lo, hi):
        self.p, self.N, self.deg = p, N, deg
        c, A = ocpgen.radau(deg), ocpgen.butcher(deg)
        self.ein = [e for e in edges if e[2] == p.k]
        self.eout = [e for e in edges if e[0] == p.k]
        ne = len(self.ein) + len(self.eout)
        P = ca.SX.sym("P", ne, N * deg)  # value of the other side
        NU = ca.SX.sym("NU", ne, N * deg)
        MU = ca.SX.sym("MU", ne)
        xn, yn, un, wn = p.names()
        w, lb, ub, g, gl, gu = [], [], [], [], [], []
        self.X, self.Y, self.U, self.W = [], [], [], []
        J = 0
        x = ca.SX(p.x0)
        B = lambda names: ([lo.get(q, -np.inf) for q in names], [hi.get(q, np.inf) for q in names])

        def var(nm, names):
            v = ca.SX.sym(nm, len(names))
            w.append(v)
            a, b = B(names)
            lb.extend(a)
            ub.extend(b)
            return v

        for el in range(N):
            X, U, W, F = [], [], [], []
            for j in range(deg):
                X.append(var("x", xn))
                U.append(var("u", un))
                W.append(var("w", wn))
            self.X.append(x)
            for j in range(deg):
                t = t0 + dt * (el + c[j])
                F.append(ca.vertcat(*p.ode(ca.vertsplit(X[j]), [U[j][i] for i in range(p.nu)], [W[j][i] for i in range(p.nin)], t)))
                y = p.out([X[j][i] for i in range(p.nx)], [U[j][i] for i in range(p.nu)])
                col = el * deg + j
                L = p.L([X[j][i] for i in range(p.nx)], y, [U[j][i] for i in range(p.nu)], [W[j][i] for i in range(p.nin)])
                if p.eq:
                    L = L + (p.own([X[j][i] for i in range(p.nx)], t) - 0.5) ** 2
                for k, e in enumerate(self.ein):
                    v = W[j][e[3]] - P[k, col]
                    L = L + NU[k, col] * v + 0.5 * MU[k] * v ** 2
                for k, e in enumerate(self.eout):
                    k += len(self.ein)
                    v = P[k, col] - y[e[1]]
                    L = L + NU[k, col] * v + 0.5 * MU[k] * v ** 2
                J = J + dt * A[-1, j] * L
                for q, e in zip(yn, y):
                    if q in lo or q in hi:
                        g.append(e)
                        gl.append(lo.get(q, -np.inf))
                        gu.append(hi.get(q, np.inf))
                self.X.append(X[j])
                self.Y.append(ca.vertcat(*y))
                self.U.append(U[j])
                self.W.append(W[j])
            for j in range(deg):
                g.append(X[j] - x - dt * sum(A[j, k] * F[k] for k in range(deg)))
                gl.extend([0.0] * p.nx)
                gu.extend([0.0] * p.nx)
            x = X[-1]
        self.X.append(x)
        J = J + p.V([x[i] for i in range(p.nx)])
        v = ca.vertcat(*w)
        par = ca.veccat(P, NU, MU)
        self.lims = (lb, ub, gl, gu)
        self.nv = v.numel()
        self.solver = ca.nlpsol("s", "ipopt", {"x": v, "f": J, "g": ca.vertcat(*g), "p": par}, {"ipopt.linear_solver": "mumps", "ipopt.print_level": 0, "print_time": False, "ipopt.sb": "yes", "ipopt.tol": 1e-9})
        H = lambda l, n: ca.horzcat(*l) if n else ca.SX(0, len(l))
        self.get = ca.Function("g", [v], [H(self.X, p.nx), H(self.Y, p.ny), H(self.U, p.nu), H(self.W, p.nin)])

    def __call__(self, P, NU, MU):
        lb, ub, gl, gu = self.lims
        s = self.solver(x0=np.zeros(self.nv), lbx=lb, ubx=ub, lbg=gl, ubg=gu, p=ca.veccat(ca.DM(P), ca.DM(NU), ca.DM(MU)))
        x, y, u, w = [np.array(a.full()) for a in self.get(s["x"])]
        return {"ok": self.solver.stats()["success"], "J": float(s["f"]), "x": x, "y": y, "u": u, "w": w}


def steps(d):
    """iteration by iteration against the algorithm written by hand"""
    DAL, BJ = library()
    from yaocptool.methods import DirectMethod

    solved = []

    class Observed(DirectMethod):
        def solve(self, *a, **kw):
            r = super().solve(*a, **kw)
            solved.append(bool(r.success))
            return r

    variant = d.weighted([(4, "serial"), (2, "distributed"), (2, "bipartite"), (2, "intermediary")])
    parts, edges = draw_net(d, variant == "intermediary")
    N, deg, t0, dt = grid(d)
    lo, hi = limits(parts)
    net, nodes, guess = network(d, parts, edges, N, t0, dt, lo, hi)
    M = N * deg
    if variant == "intermediary":
        net.insert_intermediary_nodes()
        inner_edges = []
        for i, a, j, b in edges:
            q = Middle(len(parts), parts[i].names()[1][a], parts[j].names()[3][b], M)
            nodes.append(next(n for n in net.nodes if n.name == "Dummy_node_node%d_to_node%d" % (i, j)))
            inner_edges += [(i, a, q.k, 0), (q.k, 0, j, b)]
            q.ein, q.eout = inner_edges[-2:-1], inner_edges[-1:]
            parts.append(q)
        edges = inner_edges
    subs = [p if isinstance(p, Middle) else Sub(p, edges, N, deg, t0, dt, lo, hi) for p in parts]
    rule = d.choice(["constant", "bounded-increase"] if variant == "intermediary" else ["constant", "bounded-increase", "primal", "primal-dual"])
    gamma, down = d.choice([None, 2.0, 1.01]), d.choice([None, 1.5])
    mu0, beta, mumax = d.choice([1.0, 2.0, 4.0, 32.0] if rule == "primal-dual" else [1.0, 2.0, 4.0]), d.choice([2.0, 4.0]), d.choice([10.0, 1000.0])
    outer, inner = d.int(3, 5) if rule == "primal-dual" and d.bool() else d.int(1, 4), d.int(1, 3)
    first = d.choice([None, None, 1, 5])
    itol, tol = d.choice([1e-4, 1e-2, 0.2]), d.choice([1e-6, 1e-2, 0.05, 0.2])
    opts = dict(degree=deg, finite_elements=N, max_iter_outer=outer, max_iter_inner=inner, inner_loop_tol=itol, abs_tol=tol, al_options=dict(mu_0=mu0, mu_max=mumax, beta=beta, mu_update_rule=rule))
    if rule == "primal-dual" and gamma:
        opts["al_options"]["gamma"] = gamma
    if rule == "primal-dual" and down:
        opts["al_options"]["beta_decrease"] = down
    if first is not None:
        opts["max_iter_inner_first"] = first
    if variant == "distributed":
        opts["distributed"] = True
    blocks = draw_order(d, nodes)
    d.note("%s %d parts edges=%s N=%d deg=%d %s" % (variant, len(parts), edges, N, deg, opts))
    d.label(rule)
    d.label(variant)
    md = (BJ if variant == "bipartite" else DAL)(net, Observed, {"discretization_scheme": "collocation", "degree_control": deg, "initial_guess_heuristic": "problem_info"}, blocks=blocks, options=opts)
    check(sorted(n.node_id for b in md.blocks.values() for n in b) == sorted(n.node_id for n in nodes), "every node is in one block", got=md.blocks)
    order = [nodes.index(n) for b in md.blocks.values() for n in b]
    avg = variant == "bipartite"
    block = {nodes.index(n): b for b, ns in md.blocks.items() for n in ns}
    default_down = float(md.options.al_options.beta_decrease)
    lastY = None

    Y = [np.tile(np.array([guess.get(q, 0.0) for q in p.names()[1]]).reshape(-1, 1), (1, M)) for p in parts]
    W = [np.tile(np.array([guess.get(q, 0.0) for q in p.names()[3]]).reshape(-1, 1), (1, M)) for p in parts]
    nu = {e: np.zeros(M) for e in edges}
    mu = {e: mu0 for e in edges}
    last = None
    res = [None] * len(parts)
    rounds, top = 0, 0.0  # inner iterations, largest penalty
    margin = np.inf  # distance of the branches taken from the other side
    for ko in range(outer):
        lastJ, top = np.inf, max([top] + list(mu.values()))
        for ki in range(max(inner, first) if (ko == 0 and first) else inner):
            Y1, W1 = list(Y), list(W)
            rounds += 1
            for k in order:
                s = subs[k]
                src = (Y, W) if variant == "distributed" else (Y1, W1)
                P = [src[0][e[0]][e[1]] for e in s.ein] + [src[1][e[2]][e[3]] for e in s.eout]
                if avg:
                    own = [src[1][k][e[3]] for e in s.ein] + [src[0][k][e[1]] for e in s.eout]
                    P = [(a + b) / 2 for a, b in zip(P, own)]
                E = s.ein + s.eout
                r = s(np.array(P).reshape(len(E), M), np.array([nu[e] for e in E]).reshape(len(E), M), np.array([mu[e] for e in E]))
                if not r["ok"]:
                    d.label("not solved by hand")
                    return
                res[k] = r
                Y1[k], W1[k] = r["y"], r["w"]
            Y, W = Y1, W1
            J = sum(r["J"] for r in res)
            if np.isfinite(lastJ):
                margin = min(margin, abs(J - (1 - itol) * lastJ))
            if J > (1 - itol) * lastJ:
                break
            lastJ = J
        f = 0.5 if avg else 1.0
        viol = {e: f * (W[e[2]][e[3]] - Y[e[0]][e[1]]) for e in edges}
        err = {e: np.max(np.abs(viol[e])) for e in edges}
        for e in edges:
            nu[e] = nu[e] + mu[e] * viol[e]
            if rule == "bounded-increase":
                mu[e] = min(mumax, mu[e] * beta)
            elif rule == "primal" and last is not None:
                margin = min(margin, abs(err[e] - 0.5 * last[e]))
                if err[e] > 0.5 * last[e]:
                    mu[e] = min(mumax, mu[e] * beta)
        if rule == "primal-dual":
            # every penalty alike, from the worst violation and the largest move of a value taken from the same or a later block
            rk, sk = max(err.values()), -np.inf
            if lastY is not None:
                sk = max([np.max(np.abs(Y[e[0]][e[1]] - lastY[e[0]][e[1]])) for e in edges if block[e[0]] >= block[e[2]]], default=-np.inf)
            gm, dn = gamma or 1.2, down or default_down
            margin = min([margin] + [abs(q) for q in (rk - gm * sk, sk - gm * rk) if np.isfinite(q)])
            if sk > gm * rk:
                d.label("penalty decreased before the end" if ko < outer - 1 else "penalty decreased at the end")
            mu = {e: v * beta if rk > gm * sk else v / dn if sk > gm * rk else v for e, v in mu.items()}
            lastY = list(Y)
        if variant == "distributed":
            mu = {e: max(mu.values()) for e in edges}
        last = err
        margin = min(margin, abs(max(err.values()) - tol))
        if max(err.values()) < tol:
            break
    if margin < 1e-6:
        d.label("on the edge")
        return
    r = md.solve()
    if top > 100 and not all(solved):  # IPOPT gave up on the badly scaled problem of a node
        d.label("a node was not solved")
        return
    big = max(1.0, max(np.max(np.abs(q[v])) for q in res for v in "xyuw" if q[v].size))
    for p in parts:
        got = r.results[nodes[p.k]]
        for v, names in zip("xyuw", p.names()):
            for i, q in enumerate(names):
                e = res[p.k][v][i]
                g = traj(got, q)
                if v == "x":
                    g = g[:len(e)]
                check(gen.close(g, e, 2e-4 * big), "trajectory of a node", variable=q, got=g, expected=e)
    check(r.number_of_iterations["outer"] == ko and r.number_of_iterations["inner"] == ki, "number of iterations", got=r.number_of_iterations, expected=(ko, ki))
    check(r.number_of_iterations["block_iterations"] == rounds * len(md.blocks), "number of block iterations", got=r.number_of_iterations, expected=rounds * len(md.blocks))
    check(abs(float(r.objective) - J) < 1e-4 * max(1.0, abs(J)), "objective of the network", got=r.objective, expected=J)
    ev = np.asarray(r.constraint_violations)
    check(abs(np.nanmax(ev) - max(err.values())) < 1e-4 * big, "reported violation", got=ev, expected=err)
    d.label("outer=%d" % (ko + 1))
    d.interesting()


RULE = "the run was compared with the reference to the end: all nodes' problems solved by both, stopping decisions not within 1e-6 of the edge (steps); converged with feasible composed problem (converge)"
FAMILIES = [Family("steps", steps, 480, 6000, shards=8), Family("converge", converge, 160, 3000, shards=8)]
