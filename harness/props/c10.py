"""C10: solution methods are repeatable and leave their inputs alone"""
import copy

import casadi as ca
import gen
import numpy as np
import ocpgen
from core import Family, check, raises
from yaocptool import config
from yaocptool.optimization import NonlinearOptimizationProblem, QuadraticOptimizationProblem

RULE = ("random histories of building methods on generated linear-quadratic problems and of solves with several argument sets in random order (several methods alive, shared and "
        "private option dictionaries); every result is compared with the first one for the same arguments and with a fresh method, and after every operation all inputs, options, "
        "configurations and earlier results are compared with snapshots. Non-trivial: at least two solves of one method, or two methods")


def freeze(v):
    """a deep, comparable value"""
    if isinstance(v, (ca.DM,)):
        return ("DM", v.shape, tuple(np.array(v).flatten().tolist()))
    if isinstance(v, (ca.SX, ca.MX)):
        return str(v)
    if isinstance(v, dict):
        return tuple((k, freeze(v[k])) for k in v)
    if isinstance(v, (list, tuple)):
        return tuple(freeze(a) for a in v)
    return v


def model_state(m):
    return freeze([m.x, m.y, m.u, m.p, m.theta, m.x_0, m.ode, m.alg, m.u_expr, m.u_par, m.t, m.tau, m.name, m.x_names])


PROB = ["x_max", "x_min", "y_max", "y_min", "u_max", "u_min", "delta_u_max", "delta_u_min", "p_opt_min", "p_opt_max", "theta_opt_min", "theta_opt_max", "x_0", "y_guess",
        "u_guess", "last_u", "t_0", "t_f", "L", "V", "S", "h", "h_final", "h_initial", "g_ineq", "g_eq", "p_opt", "theta_opt", "name"]


def problem_state(o):
    return freeze([getattr(o, a, None) for a in PROB] + [[list(v) for v in (getattr(o, "time_g_ineq", []), getattr(o, "time_g_eq", []))]]) + (model_state(o.model),)


def result_state(r):
    return freeze([r.x_data, r.y_data, r.u_data, r.p, r.theta, r.p_opt, r.theta_opt, r.x_0, r.objective_opt_problem, r.raw_decision_variables, r.time_breakpoints,
                   r.t_0, r.t_f, r.finite_elements, r.degree, r.degree_control, r.x_names, r.u_names, r.y_names])


def numbers(r):
    vals = [r.objective_opt_problem] + [v for k in (r.x_data, r.y_data, r.u_data) for e in k["values"] for v in e] + [r.p_opt] + list(r.theta_opt)
    return np.concatenate([gen.arr(v) if v.numel() else np.zeros(0) for v in vals])


class Case:
    """a problem, its method(s) and argument sets"""

    def __init__(self, d, k, opts):
        # with other arguments the constraints may be infeasible: then only with a limit of iterations
        con = opts is not None
        o = self.o = ocpgen.LQ(d, max_el=3, max_deg=3, cons=con, bounds=con, delta=con)
        o.prepare()
        o.build()
        self.model0 = model_state(o.model)  # the model the problem was made from
        self.kw = {"initial_guess_heuristic": d.choice(["simulation", "problem_info"])}
        if not o.col:
            self.kw["integrator_type"] = "collocation" if o.yn else d.choice(["collocation", "rk"])
        if opts is not None:
            self.kw["nlpsol_opts"] = opts
        self.meth = o.method(**self.kw)
        self.args, self.first = [], {}
        for _ in range(d.int(1, 3)):
            a = {}
            P, TH = dict(o.P), [dict(T) for T in o.TH]
            if self.args or d.bool():
                for q in o.base_p:
                    P[q] = d.num(-1, 1)
                for T in TH:
                    for q in o.base_th:
                        T[q] = d.num(-1, 1)
                for q in P:
                    if q not in o.base_p:
                        P[q] = P[q] + 2.0
            if o.pn:
                a["p"] = o.p_arg(P) if d.bool() else [float(P[q]) for q in o.pn]
            if o.thn:
                a["theta"] = o.th_arg(TH)
            if o.last_u is not None and (not o.last_in_problem or d.bool()):
                a["last_u"] = d.choice([gen.dmv, list])([float(v) for v in o.last_u])
            if d.bool():
                a["x_0"] = d.choice([gen.dmv, list])(list(o.x0 + np.array(d.vec(len(o.xn), -0.25, 0.25))) + [0.0])
            self.args.append(a)
        self.frozen = [freeze(a) for a in self.args]


def history(d):
    cfg0 = freeze(config.SOLVER_OPTIONS)
    shared = {"ipopt.max_iter": 25}
    private = {"ipopt.max_iter": 0}
    dicts = [shared, private]
    frozen_dicts = [freeze(v) for v in dicts]
    cases = []
    results = []  # (result, state)
    n_ops = d.int(3, 7)
    crippled = None

    def audit(what):
        check(freeze(config.SOLVER_OPTIONS) == cfg0, "the default options were changed by " + what, got=config.SOLVER_OPTIONS)
        for v, f in zip(dicts, frozen_dicts):
            check(freeze(v) == f, "an option dictionary of the user was changed by " + what, got=v, given=f)
        for c in cases:
            check(model_state(c.o.model) == c.model0, "the model the problem was made from was changed by " + what, got=model_state(c.o.model), before=c.model0)
            for a, f in zip(c.args, c.frozen):
                check(freeze(a) == f, "arguments of a solve were changed by " + what, got=a, given=f)
            if hasattr(c, "prob_state"):
                check(problem_state(c.o.ocp) == c.prob_state, "a solved problem was changed by " + what, got=problem_state(c.o.ocp), before=c.prob_state)
        for r, s in results:
            check(result_state(r) == s, "an earlier result was changed by " + what)

    for k in range(n_ops):
        op = d.weighted([(2, "new"), (4, "solve"), (1, "cripple"), (1, "fresh"), (1, "refused")]) if cases else "new"
        d.label(op)
        if op == "new" and len(cases) < 3:
            cases.append(Case(d, k, d.choice([None, None, shared])))
            audit("building a method")
            continue
        if op == "cripple":
            # a solver limited to no iteration must not limit the others
            o = ocpgen.LQ(d, max_el=2, max_deg=2, cons=False, opts=False, delta=False)
            o.prepare()
            o.build()
            m = o.method(nlpsol_opts=private, integrator_type="collocation")
            a = {}
            if o.pn:
                a["p"] = o.p_arg(o.P)
            if o.thn:
                a["theta"] = o.th_arg(o.TH)
            m.solve(**a)
            check(dict(m.nlpsol_opts)["ipopt.max_iter"] == 0, "the given option is not used", got=m.nlpsol_opts)
            audit("a solver with options of its own")
            continue
        if not cases:
            continue
        c = d.choice(cases)
        i = d.int(0, len(c.args) - 1)
        if op == "refused":
            o, a = c.o, dict(c.args[i])
            bad = ["x_0"]
            if len(o.popt) < len(o.pn):
                bad += ["no p", "long p"] + ["short p"] * (len(o.pn) > 1)
            if len(o.thopt) < len(o.thn):
                bad += ["no theta", "long theta", "element of theta"]
            what = d.choice(bad)
            d.label(what)
            if what == "x_0":
                a["x_0"] = gen.dmv([0.5] * (len(o.xn) + d.choice([0, 2])))
            elif what.startswith("no "):
                del a[what[3:]]
            elif what in ("long p", "short p"):
                v = [float(q) for q in (a["p"] if isinstance(a["p"], list) else gen.arr(a["p"]))]
                a["p"] = v + [0.5] if what == "long p" else v[:-1]
            elif what == "long theta":
                a["theta"] = {k: ca.vertcat(v, 0.5) for k, v in a["theta"].items()}
            else:
                a["theta"] = {k: v for k, v in a["theta"].items() if k != o.N - 1}
            check(raises(lambda: c.meth.solve(**a)), "a call with wrong arguments is accepted", what=what, problem=o.describe())
            audit("a refused solve")
            continue
        if op == "fresh":
            old = c.o.ocp, c.o.model, c.o.last_in_problem
            c.o.build()  # the same problem, declared again
            m = c.o.method(**c.kw)
            a = dict(c.args[i])
            if c.o.last_u is not None and not c.o.last_in_problem and "last_u" not in a:
                a["last_u"] = gen.dmv(c.o.last_u)  # the new declaration leaves it to the call
            c.o.ocp, c.o.model, c.o.last_in_problem = old
            r = m.solve(**a)
        else:
            r = c.meth.solve(**c.args[i])
            if not hasattr(c, "prob_state"):
                c.prob_state = problem_state(c.o.ocp)
        ok = bool(r.success)
        if i in c.first:
            d.interesting()
            r0, ok0 = c.first[i]
            if ok != ok0 and op == "fresh":
                ocpgen.solved(r if ok0 else r0, c.o.col)  # discards a stall
            check(ok == ok0, "solving again has another outcome", first=ok0, again=ok, operation=op)
            if ok:
                check(gen.close(numbers(r), numbers(r0), 1e-5 if op == "fresh" else 1e-7), "solving again gives another result", operation=op, first=r0.objective_opt_problem,
                      again=r.objective_opt_problem, problem=c.o.describe())
        else:
            c.first[i] = (r, ok)
        results.append((r, result_state(r)))
        audit("a solve")
        d.interesting(len(cases) > 1)
        # what the user does to the arguments afterwards is not the result's business
        if d.int(0, 3) == 0 and c.args[i]:
            saved = copy.deepcopy(c.args[i])
            for q, v in c.args[i].items():
                vs = list(v.values()) if isinstance(v, dict) else [v]
                for w in vs:
                    if isinstance(w, list):
                        w[:] = [9.0] * len(w)
                    elif w.numel():
                        w[:] = 9.0
            for rr, s in results:
                check(result_state(rr) == s, "a result changes with the arguments it was computed from", argument=list(c.args[i]))
            c.args[i] = saved
            d.label("arguments overwritten")


def options(d):
    """options and bounds of optimization problem objects"""
    cfg0 = copy.deepcopy(config.SOLVER_OPTIONS)
    mine = {"ipopt.print_level": 0, "print_time": False, "ipopt.sb": "yes", "ipopt.linear_solver": "mumps", "ipopt.max_iter": d.choice([0, 200])}
    probs = []
    d.interesting()
    for k in range(d.int(2, 4)):
        cls = d.choice([NonlinearOptimizationProblem, NonlinearOptimizationProblem, QuadraticOptimizationProblem])
        given = cls is NonlinearOptimizationProblem and d.bool()
        kw = {"solver_options": mine} if given else {}
        m0 = dict(mine)
        p = cls(name="p%d" % k, **kw)
        x = p.create_variable("x", 2, lb=-3.0, ub=3.0)
        par = p.create_parameter("c")
        p.include_inequality(x[0] + x[1], lb=-4.0, ub=4.0)
        c = [d.num(-1, 1), d.num(-1, 1)]
        p.set_objective((x[0] - c[0]) ** 2 + (x[1] - c[1]) ** 2 + par * x[0])
        probs.append((p, c, given))
        if d.int(0, 2) == 0 and not given and cls is NonlinearOptimizationProblem:
            # options changed for this problem only
            d.label("own options")
            p.solver_options["ipopt.max_iter"] = 0
            probs.pop()
            p.solve(initial_guess=[2.0, 2.0], p=0.0) if d.bool() else None
        check(mine == m0, "the given options were changed", got=mine)
    for _ in range(d.int(2, 4)):
        p, c, given = d.choice(probs) if probs else (None, None, None)
        if p is None:
            break
        a = d.num(-1, 1)
        g0 = ca.DM([2.0, 2.0])
        r = p.solve(initial_guess=g0, p=a)
        check(gen.close(gen.arr(g0), [2.0, 2.0], 0), "the guess was changed")
        if given and mine["ipopt.max_iter"] == 0:
            check(gen.close(gen.arr(r["x"]), [2.0, 2.0], 0.2) and not r["stats"]["success"], "a given option is not used", got=r["x"])
        else:
            check(gen.close(gen.arr(r["x"]), [c[0] - a / 2, c[1]], 1e-5), "the minimiser", got=r["x"], expected=[c[0] - a / 2, c[1]])
    check(config.SOLVER_OPTIONS == cfg0, "the default options were changed", got=config.SOLVER_OPTIONS, before=cfg0)


def safe_options(d):
    cfg0 = copy.deepcopy(config.SOLVER_OPTIONS)
    try:
        options(d)
    finally:
        config.SOLVER_OPTIONS["nlpsol_options"].clear()
        config.SOLVER_OPTIONS["nlpsol_options"].update(cfg0["nlpsol_options"])


FAMILIES = [
    Family("history", history, 320, 4000, shards=8, tshards=8, budget=200),
    Family("options", safe_options, 60, 1000, shards=2, tshards=4, budget=100),
]
