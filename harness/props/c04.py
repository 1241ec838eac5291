"""C04: DAE system transformations preserve the system's behaviour"""
import casadi as ca
import gen
import numpy as np
from core import Family, check, raises
from yaocptool.modelling import DAESystem, SystemModel

RULE = ("random DAE systems with expressions over x, y, p, t, tau; each transformation compared with direct evaluation of the original expressions at the "
        "transformed arguments, and joined systems simulated against their parts. Non-trivial: the transformed symbol occurs in the equations")


class Rand:
    """a DAESystem with AST equations"""

    def __init__(self, d, tag, with_tau=None, shared=None):
        self.nx, self.ny, self.np = d.int(1, 3), d.int(0, 2), d.int(0, 2)
        self.sx = {"t": ca.SX.sym("t"), "tau": ca.SX.sym("tau")}
        if shared:
            self.sx.update(shared)
        self.names = {"x": [], "y": [], "p": []}
        for k, n in (("x", self.nx), ("y", self.ny), ("p", self.np)):
            for i in range(n):
                nm = "%s%s%d" % (tag, k, i)
                self.names[k].append(nm)
                self.sx[nm] = ca.SX.sym(nm)
        self.all = self.names["x"] + self.names["y"] + self.names["p"]
        use_tau = d.bool() if with_tau is None else with_tau
        pool = self.all + (["tau"] if use_tau else [])
        self.ode = [gen.expr(d, pool, 2, "t") for _ in range(self.nx)]
        self.alg = [gen.expr(d, pool, 2, "t") for _ in range(self.ny)]
        self.has_tau = with_tau is not False and d.bool() or use_tau
        kw = dict(x=self.v("x"), ode=ca.vertcat(*[gen.to_sx(e, self.sx) for e in self.ode]), t=self.sx["t"])
        if self.ny:
            kw.update(y=self.v("y"), alg=ca.vertcat(*[gen.to_sx(e, self.sx) for e in self.alg]))
        if self.np:
            kw["p"] = self.v("p")
        if self.has_tau:
            kw["tau"] = self.sx["tau"]
        self.dae = DAESystem(**kw)

    def v(self, k):
        return ca.vertcat(*[self.sx[n] for n in self.names[k]])


def compare(dae, exprs_ode, exprs_alg, env_sx, over=None, msg=""):
    """equations of dae evaluate as the ASTs (with `over(env)` applied to the values first)"""
    keys = sorted(env_sx)
    uniq, syms = [], []
    for k in keys:
        if not any(ca.is_equal(env_sx[k], s) for s in syms):
            uniq.append(k)
            syms.append(env_sx[k])
    for k in range(2):
        vals = [gen.point(i, k) for i in range(len(uniq))]
        by = dict(zip(uniq, vals))
        env = {}
        for kk in keys:
            for u_, s in zip(uniq, syms):
                if ca.is_equal(env_sx[kk], s):
                    env[kk] = by[u_]
        env = over(env) if over else env
        for nm, got, es in (("ode", dae.ode, exprs_ode), ("alg", dae.alg, exprs_alg)):
            g = gen.sx_eval(got, syms, vals)
            e = [gen.evalf(x, env) for x in es]
            check(gen.close(g, e), msg + ": " + nm + " evaluates differently", got=got, values=g, expected=e)


def occurs(r, name):
    return any(name in gen.expr_vars(e) for e in r.ode + r.alg)


def tau(d):
    r = Rand(d, "a", with_tau=True)
    tk = d.num(-2, 3, 0.25)
    tk1 = tk + d.choice([0.25, 0.5, 1.0, 2.0, 3.5])
    d.interesting(occurs(r, "tau"))
    d.label("tau occurs" if occurs(r, "tau") else "no tau")
    xv, yv, pv = r.dae.x, r.dae.y, r.dae.p
    r.dae.convert_from_tau_to_time(tk, tk1)

    def over(env):
        e = dict(env)
        e["tau"] = (env["t"] - tk) / (tk1 - tk)
        return e

    compare(r.dae, r.ode, r.alg, r.sx, over, "convert_from_tau_to_time")
    check(not r.dae.depends_on(r.sx["tau"]), "system still depends on tau")
    check(ca.is_equal(r.dae.x, xv) and ca.is_equal(r.dae.y, yv) and ca.is_equal(r.dae.p, pv), "conversion changed the variables")
    # the model-level conversions of an expression
    m = SystemModel()
    m.t_sym, m.tau_sym = r.sx["t"], r.sx["tau"]
    check(ca.is_equal(m.t, r.sx["t"]) and ca.is_equal(m.tau_sym, r.sx["tau"]), "t_sym/tau_sym setters")
    e = r.ode[0]
    ex = gen.to_sx(e, r.sx)
    keys = sorted(r.sx)
    vals = [gen.point(i, 1) for i in range(len(keys))]
    env = dict(zip(keys, vals))
    a = m.convert_expr_from_tau_to_time(ex, tk, tk1)
    ea = dict(env)
    ea["tau"] = (env["t"] - tk) / (tk1 - tk)
    check(gen.close(gen.sx_eval(a, [r.sx[k] for k in keys], vals), [gen.evalf(e, ea)]), "convert_expr_from_tau_to_time")
    b = m.convert_expr_from_time_to_tau(ex, tk, tk1)
    eb = dict(env)
    eb["t"] = env["tau"] * (tk1 - tk) + tk
    check(gen.close(gen.sx_eval(b, [r.sx[k] for k in keys], vals), [gen.evalf(e, eb)]), "convert_expr_from_time_to_tau")


def substitute(d):
    r = Rand(d, "a")
    olds = d.subset(d.perm(r.all + ["t"])[:3], 1)
    old = olds[0]
    news = ca.SX.sym("renamed", len(olds))
    new = news[0]
    d.interesting(any(occurs(r, o) for o in olds))
    d.label("subst " + ("t" if old == "t" else old[1]))
    r.dae.substitute_variable(ca.vertcat(*[r.sx[o] for o in olds]), news)
    sx = dict(r.sx)
    for i, o in enumerate(olds):
        sx[o] = news[i]
    compare(r.dae, r.ode, r.alg, sx, None, "substitute_variable")
    for k, got in (("x", r.dae.x), ("y", r.dae.y), ("p", r.dae.p)):
        exp = [sx[n] for n in r.names[k]]
        check(got.numel() == len(exp) and all(ca.is_equal(got[i], s) for i, s in enumerate(exp)), "substitute_variable: variables", kind=k, got=got)
    if old != "t":
        check(r.dae.has_variable(new) and not r.dae.has_variable(r.sx[old]), "has_variable after a substitution")
        check(not r.dae.depends_on(r.sx[old]), "old variable still in the equations")


def queries(d):
    r = Rand(d, "a")
    foreign = ca.SX.sym("f")
    d.interesting()
    for n in r.all + ["t"]:
        check(r.dae.has_variable(r.sx[n]), "has_variable is false for a variable of the system", name=n)
    check(r.dae.has_variable(r.sx["tau"]) == r.has_tau, "has_variable(tau)")
    check(not r.dae.has_variable(foreign), "has_variable is true for a foreign symbol")
    check(r.dae.has_variable(ca.vertcat(foreign, r.sx[r.all[0]])), "has_variable of a vector containing a variable")
    full = ca.vertcat(*[gen.to_sx(e, r.sx) for e in r.ode + r.alg])
    for n in r.all + ["t", "tau"]:
        check(r.dae.depends_on(r.sx[n]) == ca.depends_on(full, r.sx[n]), "depends_on", name=n)
    check(r.dae.type == ("dae" if r.ny else "ode") and r.dae.is_dae == bool(r.ny) and r.dae.is_ode == (not r.ny), "type")
    check(r.dae.has_parameters == bool(r.np), "has_parameters")
    dd = r.dae.dae_system_dict
    check(set(dd) == {"x", "ode", "t"} | ({"z", "alg"} if r.ny else set()) | ({"p"} if r.np else set()), "dae_system_dict keys", got=set(dd))
    check(ca.is_equal(dd["x"], r.v("x")) and dd["ode"].numel() == r.nx, "dae_system_dict contents")


def join(d):
    a, b = Rand(d, "a"), Rand(d, "b")
    d.interesting(any(occurs(b, s) for s in ("t", "tau")))
    d.label("tau:%s/%s" % (a.has_tau, b.has_tau))
    bd = b.dae
    before = [bd.ode, bd.alg, bd.x, bd.y, bd.p]
    a.dae.join(bd)
    sx = dict(a.sx)
    ast_b = []
    mp = {"t": ("v", "t"), "tau": ("v", "tau") if (a.has_tau and b.has_tau) else ("v", "tau_b")}
    sx["tau_b"] = b.sx["tau"]
    for n in b.all:
        sx[n] = b.sx[n]
    ode = a.ode + [gen.subst(e, mp) for e in b.ode]
    alg = a.alg + [gen.subst(e, mp) for e in b.alg]
    compare(a.dae, ode, alg, sx, None, "join")
    for k, got in (("x", a.dae.x), ("y", a.dae.y), ("p", a.dae.p)):
        exp = [a.sx[n] for n in a.names[k]] + [b.sx[n] for n in b.names[k]]
        check(got.numel() == len(exp) and all(ca.is_equal(got[i], s) for i, s in enumerate(exp)), "join: variables", kind=k, got=got)
    check(not a.dae.depends_on(b.sx["t"]), "joined system depends on the other system's time variable")
    check(all(ca.is_equal(u, v) for u, v in zip(before, [bd.ode, bd.alg, bd.x, bd.y, bd.p])), "join changed the other system")
    for n in b.all:
        check(a.dae.has_variable(b.sx[n]), "joined variables are not part of the system")


def join_simulate(d):
    s1, s2 = gen.Sys(d, max_x=2), gen.Sys(d, max_x=2)
    m1, _ = s1.build("m1", "a")
    m2, _ = s2.build("m2", "b")
    d1, d2, dj = m1.get_dae_system(), m2.get_dae_system(), m1.get_dae_system()
    dj.join(d2)
    t0 = d.choice([0.0, 1.0])
    tf = t0 + d.choice([0.5, 1.0])
    d.interesting()

    def ps(s):
        return np.concatenate([s.vals(d, "p"), s.vals(d, "theta"), s.vals(d, "u")])

    p1, p2, x1, x2 = ps(s1), ps(s2), s1.vals(d, "x"), s2.vals(d, "x")
    o = {"integrator_options": {"reltol": 1e-8, "abstol": 1e-9}}
    r1 = d1.simulate(gen.dmv(x1), tf, t0, p=gen.dmv(p1), **o)
    r2 = d2.simulate(gen.dmv(x2), tf, t0, p=gen.dmv(p2), **o)
    rj = dj.simulate(gen.dmv(np.concatenate([x1, x2])), tf, t0, p=gen.dmv(np.concatenate([p1, p2])), **o)
    check(gen.close(gen.arr(rj["xf"]), np.concatenate([gen.arr(r1["xf"]), gen.arr(r2["xf"])]), 1e-5), "joined simulation differs from its parts")
    check(gen.close(gen.arr(rj["zf"]), np.concatenate([gen.arr(r1["zf"]), gen.arr(r2["zf"])]), 1e-4), "joined algebraic values differ from the parts")


def tau_simulate(d):
    """a system written in tau, converted on [t_k, t_kp1], is the system in (t-t_k)/h"""
    sy = gen.Sys(d, max_y=1, timevar=False)
    m, s = sy.build()
    k = d.nonzero(-1.5, 1.5, 0.25)
    m.include_equations(ode=[m.ode[0] + k * m.tau], x=[s["x"][0]])
    t0 = d.choice([0.0, 0.5, -1.0])
    h = d.choice([0.25, 0.5, 1.0, 2.0])
    dae = m.get_dae_system()
    x0, p, th, u = sy.vals(d, "x"), sy.vals(d, "p"), sy.vals(d, "theta"), sy.vals(d, "u")
    par = gen.dmv(np.concatenate([p, th, u]))
    check(raises(lambda: dae.simulate(gen.dmv(x0), t0 + h, t0, p=par)), "a tau-dependent system must not be simulated unconverted")
    dae.convert_from_tau_to_time(t0, t0 + h)
    end = t0 + h * d.choice([1.0, 0.5, 1.0])
    r = dae.simulate(gen.dmv(x0), end, t0, p=par, integrator_options={"reltol": 1e-8, "abstol": 1e-9})
    d.interesting()
    f0 = sy.f

    def f(t, x, uu, pp, tt):
        v = f0(t, x, uu, pp, tt)
        v = np.array(v)
        v[0] += k * (t - t0) / h
        return v

    sy.f = f
    x = sy.solve(x0, t0, end, u, p, th)
    check(gen.close(gen.arr(r["xf"]), x, 1e-5), "converted system simulates differently", got=r["xf"], expected=x)


FAMILIES = [Family("tau", tau, 1500, 9000, shards=4), Family("substitute", substitute, 1500, 9000, shards=4), Family("queries", queries, 1500, 9000, shards=4),
            Family("join", join, 1800, 10800, shards=4), Family("join_simulate", join_simulate, 750, 4500, shards=4),
            Family("tau_simulate", tau_simulate, 750, 4500, shards=4)]
