"""C11: results report the solution they were made from"""
import casadi as ca
import gen
import numpy as np
import ocpgen
from core import Discard, Family, check, raises

RULE = ("random problems (dynamics, costs, constraints, optimization parameters/thetas, with or without controls and algebraic variables) x scheme x degrees, solved from a generated "
        "guess with 0 to 30 iterations; the result object is compared entry by entry with the decision vector of the program, the grid and an independent evaluation of the cost. "
        "Non-trivial: more than one element and at least one of controls of degree > 1, algebraic variables, optimization parameters or thetas")


def arr(v):
    return gen.arr(v) if v.numel() else np.zeros(0)


def times(o, taus):
    return [[o.time(el, tau) for tau in taus] for el in range(o.N)]


def same_times(got, exp, what):
    check(len(got) == len(exp) and all(len(a) == len(b) for a, b in zip(got, exp)) and gen.close(np.concatenate([np.array(a, float) for a in got] or [np.zeros(0)]),
          np.concatenate([np.array(b, float) for b in exp] or [np.zeros(0)]), 1e-10), what, got=got, expected=exp)


def same_data(got, exp, what):
    check(len(got) == len(exp), what + " (number of elements)", got=len(got), expected=len(exp))
    for el, (a, b) in enumerate(zip(got, exp)):
        check(len(a) == len(b), what + " (number of points)", element=el, got=len(a), expected=len(b))
        for j, (u, v) in enumerate(zip(a, b)):
            check(u.numel() == len(v) and gen.close(arr(u), v, 1e-12), what, element=el, point=j, got=u, expected=v)


def case(d):
    o = ocpgen.Ocp(d, max_el=4, long=True)
    o.prepare()
    o.build()
    n = o.sy.n
    kw = {"nlpsol_opts": {"ipopt.max_iter": d.choice([0, 0, 3, 30])}, "initial_guess_heuristic": d.choice(["simulation", "problem_info"])}
    if not o.col:
        kw["integrator_type"] = "collocation" if o.yn else d.choice(["collocation", "rk"])
    meth = o.method(**kw)
    skw = {}
    if o.pn:
        skw["p"] = d.choice([o.p_arg(o.P), [float(o.P[q]) for q in o.pn]] + ([float(o.P[o.pn[0]])] if len(o.pn) == 1 else []))
    if o.thn:
        skw["theta"] = o.th_arg(o.TH)
    if o.last_u is not None and not o.last_in_problem:
        skw["last_u"] = gen.dmv(o.last_u)
    x0 = o.x0
    d.label(o.scheme)
    d.interesting(o.N > 1 and bool(o.dc > 1 or o.yn or o.popt or o.thopt))
    d.note(o.describe())
    guess = d.bool()
    if guess:
        meth.create_optimization_problem()
        o.layout(meth)
        skw["initial_guess"] = gen.dmv(o.pack(o.X, o.Y, o.U, o.P, o.TH))
    if d.bool():
        x0 = o.x0 + np.array(d.vec(n["x"], -0.5, 0.5))
        if guess:
            z = np.zeros(meth.model.n_x)
            for q, v in zip(o.xn, x0):
                z[meth.model.x_names.index(q)] = v
        else:
            z = np.concatenate([x0, [0.0]])
        skw["x_0"] = gen.dmv(z)
    try:
        r = meth.solve(**skw)
    except RuntimeError as e:
        # without controls the result integrates the model again, at the last iterate; the generated costs may be unbounded, and there it may be huge
        if not o.col and not n["u"] and "rootfinder process failed" in str(e) and kw["nlpsol_opts"]["ipopt.max_iter"] > 0:
            raise Discard("integration at a diverged iterate")
        raise
    o.layout(meth)
    raw = gen.arr(r.raw_decision_variables)
    check(gen.close(raw, gen.arr(r.raw_solution_dict["x"]), 0) and raw.size == o.nv, "decision vector")
    used = sorted(i for e in o.ix + o.iy + o.iu for p in e for i in p) + sorted(o.ipo) + sorted(i for e in o.ito for i in e)
    check(sorted(used) == list(range(o.nv)), "the parts of the decision vector", used=used, size=o.nv)
    X, Y, U, P, TH = o.unpack(raw, o.P, o.TH)

    # description
    for a, v in (("finite_elements", o.N), ("degree", o.degree), ("degree_control", o.dc), ("t_0", o.t0), ("t_f", o.tf), ("problem_name", o.ocp.name), ("discretization_scheme", o.scheme),
                 ("method_name", "DirectMethod")):
        check(getattr(r, a) == v, "result." + a, got=getattr(r, a), expected=v)
    check(bool(r.success) == bool(r.stats["success"]), "success")
    check(r.is_valid, "a solved result is valid")
    check(r.y_names == o.yn and r.u_names == o.un and r.theta_opt_names == o.thopt and sorted(r.x_names) == sorted(o.xn + [meth.problem.x_cost[0].name()]), "names",
          x=r.x_names, y=r.y_names, u=r.u_names, theta_opt=r.theta_opt_names)
    row = [r.x_names.index(q) for q in o.xn] + [r.x_names.index(meth.problem.x_cost[0].name())]

    # trajectories and times
    inv = np.argsort(row)
    XE = [[z[inv] for z in e] for e in X]
    if o.col:
        XE = XE + [[XE[-1][-1]]]
        taus = ocpgen.radau(o.degree)
        tx, ty = times(o, [0.0] + list(taus)), times(o, taus)
    else:
        tx, ty = [[o.time(k, 0.0)] for k in range(o.N + 1)], [[o.time(k, 1.0)] for k in range(o.N)]
    tu = times(o, [0.0] if o.dc == 1 else ocpgen.radau(o.dc))
    UE = U if n["u"] else [[np.zeros(0)] * (o.dc if r.u_data["values"] and r.u_data["values"][0] else 0) for _ in range(o.N)]
    same_data(r.x_data["values"], XE, "states of the result")
    same_data(r.y_data["values"], Y, "algebraic variables of the result")
    if n["u"]:
        same_data(r.u_data["values"], UE, "controls of the result")
        same_times(r.u_data["time"], tu, "times of the controls")
    same_times(r.x_data["time"], tx, "times of the states")
    same_times(r.y_data["time"], ty, "times of the algebraic variables")
    check(gen.close(r.time_breakpoints, [o.time(k, 0.0) for k in range(o.N + 1)], 1e-10), "time breakpoints", got=r.time_breakpoints)

    # parameters
    check(gen.close(arr(r.p), [P[q] for q in o.pn], 1e-12), "parameters of the result", got=r.p, expected=[P[q] for q in o.pn])
    check(gen.close(arr(r.p_opt), [P[q] for q in o.popt], 1e-12), "optimization parameters", got=r.p_opt)
    check(sorted(r.theta) == list(range(o.N)) and len(r.theta_opt) == o.N, "elements of theta", got=list(r.theta))
    for el in range(o.N):
        check(gen.close(arr(r.theta[el]), [TH[el][q] for q in o.thn], 1e-12), "theta of the result", element=el, got=r.theta[el], expected=[TH[el][q] for q in o.thn])
        check(gen.close(arr(r.theta_opt[el]), [TH[el][q] for q in o.thopt], 1e-12), "theta_opt of the result", element=el, got=r.theta_opt[el])
    given = skw["x_0"] if "x_0" in skw else meth.problem.x_0
    check(gen.close(arr(ca.DM(r.x_0)), arr(ca.DM(given)), 0), "x_0 of the result", got=r.x_0, expected=given)

    # values
    J = o.cost(X, Y, U, P, TH)
    if np.isnan(float(r.raw_solution_dict["f"])):  # IPOPT refuses problems with more equalities than variables before evaluating anything
        d.label("not evaluated by IPOPT")
        check(not r.success, "success without an objective")
    elif o.col or o.S == ("c", 0.0) or r.success:
        # (shooting evaluates the element cost at the integrated state, which is the reported one when the dynamics hold)
        check(gen.close(gen.arr(r.objective_opt_problem), [J], 1e-7 if o.col else 1e-5), "objective", got=r.objective_opt_problem, expected=J)
    check(gen.close(gen.arr(r.x_c_final), [X[-1][-1][-1]], 1e-12), "final value of the cost state", got=r.x_c_final, expected=X[-1][-1][-1])
    check(gen.close(arr(r.constraint_values), arr(r.raw_solution_dict["g"]), 0), "constraint values")

    # access
    if n["u"]:
        check(gen.close(arr(r.first_control()), U[0][0], 1e-12), "first control", got=r.first_control(), expected=U[0][0])
        same_data([r.first_control_parameters()], [U[0]], "first control parameters")
    for t, names, data in (("x", r.x_names, XE), ("y", r.y_names, Y), ("u", r.u_names, UE)):
        for i, q in enumerate(names):
            exp = [[[z[i]] for z in e] for e in data]
            same_data(r.get_variable(t, i), exp, "get_variable")
            same_data(r.get_variable_by_name(q), exp, "get_variable_by_name " + q)
        if len(names) > 1:
            sel = d.perm(range(len(names)))[:2]
            same_data(r.get_variable(t, list(sel)), [[z[list(sel)] for z in e] for e in data], "get_variable of several rows")
    check(raises(lambda: r.get_variable_by_name("nobody"), ValueError), "a name that does not exist is found")
    check(raises(lambda: r.get_variable("w", 0)), "a kind of variable that does not exist is found")

    # dataset: every reported point once, in order
    ds = r.dataset
    check(ds is r.dataset, "the dataset is made again")
    tX = tx + [[o.tf]] if o.col else tx
    for t, names, data, tt, style in (("x", r.x_names, XE, tX, "plot"), ("y", r.y_names, Y, ty, "plot"), ("u", r.u_names, UE, tu, "step" if o.dc == 1 else "plot")):
        check(t in ds.data and ds.get_entry_names(t) == names and ds.get_entry_size(t) == len(names), "entry of the dataset", entry=t)
        if not names:
            continue
        te, v = ds.get_entry(t)
        flat = np.array([z for e in data for z in e]).T
        ft = np.array([q for e in tt for q in e])
        check(te.numel() == ft.size and gen.close(gen.arr(te), ft, 1e-10), "times in the dataset", entry=t, got=te, expected=ft)
        check(v.shape == flat.shape and gen.close(gen.mat(v), flat, 1e-12), "values in the dataset", entry=t, got=v, expected=flat)
        check(ds.data[t].plot_style == style if t == "u" else True, "plot style", entry=t)
        ts = gen.arr(te)
        check(np.all(np.diff(ts) >= -1e-12), "times decrease", got=ts)
    ts = gen.arr(ds.get_entry("x")[0])
    check(gen.close([ts[0], ts[-1]], [o.t0, o.tf], 1e-10), "the states start at t_0 and end at t_f", got=(ts[0], ts[-1]))
    if o.thopt:
        te, v = ds.get_entry("theta_opt")
        check(ds.get_entry_names("theta_opt") == o.thopt and gen.close(gen.arr(te), [o.time(k, 0) for k in range(o.N)], 1e-10) and
              gen.close(gen.mat(v), np.array([[TH[el][q] for el in range(o.N)] for q in o.thopt]), 1e-12), "theta_opt in the dataset", got=v)


FAMILIES = [Family("result", case, 800, 6000, shards=6, tshards=8, budget=150)]
