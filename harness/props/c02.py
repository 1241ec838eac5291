"""C02: copies of a model are equivalent and independent"""
import warnings

import casadi as ca
import gen
import numpy as np
from core import Family, check
from props.c01 import OPS, Hist
from yaocptool.modelling import OptimalControlProblem

RULE = ("a random history builds a model; it is copied (get_copy / get_deepcopy / OCP working model / reset_working_model) and both sides are "
        "edited in a random interleaving, each compared with its own reference model after every call; plus simulation equality. "
        "Non-trivial: at least one edit after the copy on a model with equations, or a simulated copy with u/p/theta/y")


def build(d):
    h = Hist(d, prefix=d.bool())
    ops = ["op_create"] * d.int(1, 6) + ["op_ode"] * d.int(0, 2) + ["op_alg"] * d.int(0, 2)
    for op in ops:
        getattr(h, op)()
    for _ in range(d.int(0, 4)):
        getattr(h, d.weighted(OPS))()
    h.compare()
    return h


def interleave(d, sides, n):
    for i in range(n):
        k = d.int(0, len(sides) - 1)
        op = d.weighted(OPS)
        getattr(sides[k], op)()
        d.note("%d:%s" % (k, op))
        for s in sides:
            s.compare()
    for s in sides:
        s.compare_dae()


def shallow(d):
    warnings.simplefilter("ignore")
    h = build(d)
    c = h.clone(h.m.get_copy())
    check(c.m is not h.m, "get_copy returned the same object")
    check(c.m.name == h.m.name and type(c.m) is type(h.m), "copy has another name or type")
    sides = [h, c]
    n = d.int(1, 6)
    if d.bool():
        sides.append(c.clone(c.m.get_copy()))
    c.compare()
    d.interesting(bool(h.r.ode or h.r.alg))
    d.label("copies=%d" % (len(sides) - 1))
    interleave(d, sides, n)


def deep(d):
    warnings.simplefilter("ignore")
    h = build(d)
    m2 = h.m.get_deepcopy()
    sx = dict(h.sx)
    for k in ("x", "y", "u", "p", "theta"):
        v = getattr(m2, k)
        check(v.numel() == len(h.r.vec[k]), "deep copy has another number of variables", kind=k)
        for i, u_ in enumerate(h.r.vec[k]):
            check(not ca.is_equal(v[i], h.sx[u_]), "deep copy shares a symbol with the original", kind=k)
            sx[u_] = v[i]
    check(m2.u_par.numel() == len(h.r.upar), "deep copy has another number of control parameters")
    for i, u_ in enumerate(h.r.upar):
        check(not ca.is_equal(m2.u_par[i], h.sx[u_]), "deep copy shares a control parameter with the original")
        if u_ not in h.r.vec["u"]:
            sx[u_] = m2.u_par[i]
    check(not ca.is_equal(m2.t, h.m.t) and not ca.is_equal(m2.tau, h.m.tau), "deep copy shares the time variable")
    sx["t"], sx["tau"] = m2.t, m2.tau
    check(m2.x_0.numel() == m2.n_x, "initial-condition symbols of the deep copy")
    for s in m2.x_0.nz:
        check(not any(ca.is_equal(s, o) for o in h.m.x_0.nz), "deep copy shares an initial-condition symbol")
    # symbols of removed variables may remain free in equations; everything else must be new
    c = h.clone(m2, sx, [s for s in m2.x_0.nz])
    check(m2.name == h.m.name, "name of the deep copy")
    h.m.has_adjoint_variables = h.m.n_x % 2 == 0 and d.bool()
    m3 = h.m.get_deepcopy()
    names = lambda v: [q.name() for q in v.nz]
    check(names(m3.x_sys_sym) == names(h.m.x_sys_sym) and names(m3.lamb_sym) == names(h.m.lamb_sym), "states and adjoint states of the deep copy", got=(m3.x_sys_sym, m3.lamb_sym))
    h.m.has_adjoint_variables = False
    c.compare()
    h.compare()
    live = set(h.all_live() + h.r.upar + ["t", "tau"])
    eqs = ca.vertcat(m2.ode, m2.alg, m2.u_expr)
    for u_ in live:
        if eqs.numel():
            check(not ca.depends_on(eqs, h.sx[u_]), "an equation of the deep copy still depends on a symbol of the original", symbol=u_)
    d.interesting(bool(h.r.ode or h.r.alg))
    if h.r.parametrized:
        d.label("parametrized")
    interleave(d, [h, c], d.int(1, 5))


def ocp_copy(d):
    """the working model of an OCP starts as the user's model and edits do not go back"""
    warnings.simplefilter("ignore")
    h = build(d)
    ocp = OptimalControlProblem(h.m, x_0=ca.DM.zeros(h.m.n_x))
    w = h.clone(ocp.model)
    w.compare()
    d.interesting(bool(h.r.ode or h.r.alg))
    base = h.clone(h.m)
    for i in range(d.int(1, 5)):
        k = d.int(0, 3)
        if k == 0:
            v = ocp.create_state("extra%d" % i, ode=ca.SX(1), x_0=ca.DM(0))
            uid = w.reg("x", [v], [v.name()])[0]
            w.r.vec["x"].append(uid)
            w.r.ode[uid] = ("c", 1.0)
            w.r.x0[uid] = ocp.model.x_0[-1]
        elif k == 1:
            v = ocp.create_control("extrau%d" % i)
            uid = w.reg("u", [v], [v.name()])[0]
            w.r.vec["u"].append(uid)
            w.r.uexpr[uid] = ("v", uid)
            w.r.upar.append(uid)
        elif k == 2:
            getattr(w, d.weighted(OPS))()
        else:
            pool = w.all_live()
            if pool:
                u_ = d.choice(pool)
                e = gen.expr(d, pool, 1)
                ocp.replace_variable(w.sx[u_], gen.to_sx(e, w.sx))
                w.ref_subst({u_: e})
        w.compare()
        base.compare()
    d.label("ocp_edit")
    ocp.reset_working_model()
    r = h.clone(ocp.model)
    r.compare()
    base.compare()
    for _ in range(d.int(0, 3)):  # the new working model is as separate as the first one
        getattr(r, d.weighted(OPS))()
        r.compare()
        base.compare()


def simulate(d):
    """original, copy and deep copy simulate alike"""
    sy = gen.Sys(d)
    m, s = sy.build()
    x0, p, th, u = sy.vals(d, "x"), sy.vals(d, "p"), sy.vals(d, "theta"), sy.vals(d, "u")
    par = sy.n["u"] > 0 and d.bool()
    if par:
        k = ca.SX.sym("gain", 1)
        m.parametrize_control(s["u"][0], k * s["x"][0] + m.t, k)
    tf = d.choice([0.5, 1.0])
    args = dict(x_0=gen.dmv(x0), t_f=tf, t_0=0.0, u=gen.dmv(u), p=gen.dmv(p), theta={0: gen.dmv(th)})
    if par:
        args["u"] = gen.dmv(np.concatenate([u[1:], [0.3]]))
    d.label("dae" if sy.n["y"] else "ode")
    d.interesting(sum(sy.n.values()) > sy.n["x"])
    if par:
        d.label("parametrized")
    ref = m.simulate(**args).final_condition()
    for nm, c in (("copy", m.get_copy()), ("deepcopy", m.get_deepcopy()), ("copy of deepcopy", m.get_deepcopy().get_copy())):
        got = c.simulate(**args).final_condition()
        for k in ("x", "y", "u"):
            check(gen.close(gen.arr(got[k]), gen.arr(ref[k]), 1e-6), "%s simulates differently" % nm, var=k, got=got[k], ref=ref[k])


FAMILIES = [Family("shallow", shallow, 1800, 10800, shards=4), Family("deep", deep, 1800, 10800, shards=4),
            Family("ocp", ocp_copy, 1800, 10800, shards=4), Family("simulate", simulate, 480, 3000, shards=4)]
