"""C08: a direct solution is feasible and optimal for the original problem"""
import math

import casadi as ca
import gen
import numpy as np
import ocpgen
from core import Family, check, raises
from scipy.integrate import solve_ivp

RULE = ("random linear-quadratic problems (DAE dynamics, strictly convex costs, bounds, path/final/parameter constraints, control moves, optimization parameters) x "
        "scheme x degrees x integrator x guess heuristic x way of passing x_0/p/theta/last_u. Oracle: independent transcription (same Radau points, or fine sub-grid for "
        "shooting) solved directly, plus an independent simulation with the reported controls. Non-trivial: a constraint/bound/move limit/optimization parameter is present or more than one element")


def opts_for(o, d):
    kw = {"initial_guess_heuristic": d.choice(["simulation", "problem_info"])}
    if not o.col:
        kw["integrator_type"] = d.weighted([(8, "collocation"), (1, "implicit")] + ([] if o.yn else [(6, "rk")]))
        if kw["integrator_type"] == "implicit":
            kw["nlpsol_opts"] = {"ipopt.max_iter": 80}
        if d.int(0, 3) == 0:
            kw["cost_as_a_sum"] = True
    return kw


def compare(o, r, ref, tol, d):
    if not r.success and o.noisy:  # the error control of the variable-step integrators is not differentiable: IPOPT may stall next to the optimum
        d.label("stalled")
        return None
    if not r.success and o.degenerate:
        d.label("degenerate")
        return None
    check(ocpgen.solved(r, o.col), "the solver did not succeed on a convex feasible problem", status=r.stats.get("return_status"))
    check(gen.close(gen.arr(r.objective_opt_problem), [ref["J"]], tol), "objective is not the optimum", got=r.objective_opt_problem, expected=ref["J"])
    u = np.array([gen.arr(v) for e in r.u_data["values"] for v in e]).T
    check(u.shape == ref["u"].shape, "shape of the control data", got=u.shape, expected=ref["u"].shape)
    ut = 30 * math.sqrt(tol)
    check(gen.close(u, ref["u"], ut), "controls are not optimal", got=u, expected=ref["u"])
    names = r.x_names
    o_idx = [names.index(q) for q in o.xn]
    if o.col:
        x = np.array([gen.arr(e[0])[o_idx] for e in r.x_data["values"]]).T
    else:
        x = np.array([gen.arr(e[0])[o_idx] for e in r.x_data["values"]]).T
    check(gen.close(x, ref["x"], ut), "states are not optimal", got=x, expected=ref["x"])
    if o.popt:
        check(gen.close(gen.arr(r.p_opt), ref["po"], ut), "optimization parameters are not optimal", got=r.p_opt, expected=ref["po"])
    if o.thopt:
        check(gen.close(np.concatenate([gen.arr(v) for v in r.theta_opt]), ref["to"], ut), "optimization thetas are not optimal", got=r.theta_opt, expected=ref["to"])
    return u


def feasible(o, r, x0, tol):
    """the reported trajectories satisfy the problem: simulate with the reported control"""
    nx = len(o.xn)
    idx = [r.x_names.index(q) for q in o.xn]
    P = dict(o.P)
    P.update(zip(o.popt, gen.arr(r.p_opt) if o.popt else []))
    TH = [dict(T) for T in o.TH]
    for T, v in zip(TH, r.theta_opt):
        T.update(zip(o.thopt, gen.arr(v) if o.thopt else []))
    U = [[gen.arr(v) for v in e] for e in r.u_data["values"]]
    z = np.concatenate([x0, [0.0]])
    for el in range(o.N):
        z, y = o.shoot(el, z, U, P, TH)
        got = gen.arr(r.x_data["values"][el + 1][0])[idx]
        check(gen.close(got, z[:nx], tol), "reported states are not the trajectory of the reported control", element=el, got=got, expected=z[:nx])
    return z


def optimum(d):
    from yaocptool import config

    try:
        _optimum(d, config)
    finally:
        config.INTEGRATOR_OPTIONS.clear()


def _optimum(d, config):
    o = ocpgen.LQ(d, long=True)
    o.prepare()
    o.build()
    kw = opts_for(o, d)
    o.noisy = kw.get("integrator_type") == "implicit"
    if o.noisy:
        # the error of the default tolerances is noise to the NLP solver, which then stalls close to the optimum
        config.INTEGRATOR_OPTIONS.update({"reltol": 1e-10, "abstol": 1e-11})
    d.label(o.scheme)
    d.note(o.describe())
    for k, c in (("ineq", o.ineq), ("eq", o.eq), ("h_final", o.h_final), ("popt", o.popt), ("thopt", o.thopt), ("delta", o.delta), ("dc>1", o.dc > 1), ("dae", o.yn)):
        if c:
            d.label(k)
            d.interesting()
    d.interesting(o.N > 1 or np.isfinite(np.concatenate([o.u_lo, o.u_hi, o.x_lo, o.x_hi])).any())
    if d.bool():
        o.ocp.u_guess = gen.dmv(np.zeros(len(o.un)))
    if o.yn and d.bool():
        o.ocp.y_guess = gen.dmv(np.zeros(len(o.yn)))
    icp = d.int(0, 4) < 4
    if not icp:
        kw["initial_condition_as_parameter"] = False
        d.label("initial condition fixed")
    meth = o.method(**kw)
    x0 = o.x0
    skw = {}
    if o.pn and not (set(o.pn) <= set(o.popt) and d.bool()):
        skw["p"] = d.choice([o.p_arg(o.P), [float(o.P[q]) for q in o.pn]] + ([float(o.P[o.pn[0]])] if len(o.pn) == 1 else []))
    if o.thn and not (set(o.thn) <= set(o.thopt) and d.bool()):
        skw["theta"] = o.th_arg(o.TH)
    if o.last_u is not None and not o.last_in_problem:
        skw["last_u"] = gen.dmv(o.last_u) if d.bool() else [float(v) for v in o.last_u]
    tol = 1e-6 if o.col else 2e-5 if o.dc <= 3 else 2e-4
    ref = o.reference()
    if not ref["ok"]:
        d.label("reference failed")
        return
    r = meth.solve(**skw)
    if compare(o, r, ref, tol, d) is None:
        return
    z = feasible(o, r, x0, 5e-3 if o.col else 1e-4) if (not o.col or o.degree >= 3) else None
    # solve again from the solution, from the dictionary of the solution, and from another initial state
    k = d.weighted([(2, 0), (3, 3), (1, 1), (1, 2)])
    if k == 1:
        r2 = meth.solve(initial_guess=r.raw_decision_variables, **skw)
        compare(o, r2, ref, tol, d)
        d.label("re-solve from guess")
    elif k == 2:
        r2 = meth.solve(initial_guess_dict=r.raw_solution_dict, **skw)
        compare(o, r2, ref, tol, d)
        d.label("warm start")
    elif k == 3 and icp:
        x1 = x0 + np.array(d.vec(len(o.xn), -0.5, 0.5))
        ref1 = o.reference(x0=x1)
        if ref1["ok"]:
            z0 = np.zeros(meth.model.n_x)
            for q, v in zip(o.xn, x1):
                z0[meth.model.x_names.index(q)] = v
            r1 = meth.solve(x_0=gen.dmv(z0), **skw)
            compare(o, r1, ref1, tol, d)
            d.label("other x_0")


def schemes(d):
    """the optimum does not depend on the scheme / degree / time shift"""
    shift = d.choice([0.0, 2.0])
    o = ocpgen.LQ(d, scheme="collocation", cost_t=not shift, cons=False, min_deg=4, max_deg=4, max_el=3, delta=False, timevar=False, bounds=d.bool())
    o.prepare()
    res = []
    d.interesting()
    has_t = "t" in gen.expr_vars(o.L) | gen.expr_vars(o.S)
    for sch, deg in (("collocation", 4), ("collocation", 5), ("multiple-shooting", 3)):
        o.scheme, o.degree, o.col = sch, deg, sch == "collocation"
        o.build()
        if shift and not has_t and len(res) != 0:
            o.ocp.t_0 += shift
            o.ocp.t_f += shift
            d.label("shifted")
        kw = {} if o.col else {"integrator_type": "collocation"}
        r = o.method(**kw).solve(p=o.p_arg(o.P), theta=o.th_arg(o.TH))
        check(bool(r.success), "not solved", scheme=sch)
        # bounds on states are enforced at different instants, so compare only without them
        res.append((sch, deg, float(r.objective_opt_problem)))
    if not np.isfinite(np.concatenate([o.x_lo, o.x_hi, o.y_lo, o.y_hi])).any():
        d.label("compared")
        for sch, deg, J in res[1:]:
            check(abs(J - res[0][2]) < 2e-4 * (1 + abs(J)), "optimum depends on the discretization", results=res)


FAMILIES = [Family("optimum", optimum, 750, 9000, shards=15, tshards=16), Family("schemes", schemes, 80, 800, shards=2, tshards=8)]
