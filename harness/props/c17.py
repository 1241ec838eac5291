"""C17: vector, theta and polynomial utilities against their definitions"""
import re

import casadi as ca
import gen
import numpy as np
from core import Family, Violation, check, raises
from scipy.linalg import expm as sp_expm
from yaocptool.util import (Timer, convert_expr_from_tau_to_time, create_constant_theta, create_polynomial_approximation, expm, find_variables_in_vector_by_name,
                            find_variables_indices_in_vector, is_equality, is_inequality, join_thetas, remove_variables_from_vector,
                            remove_variables_from_vector_by_indices)

RULE = ("random vectors of (repeated-name) symbols, index lists, theta dictionaries, expressions, matrices and polynomial data; results compared with Python sets/lists, "
        "numpy/scipy and Lagrange interpolation. Non-trivial: more than one element involved, an edge index/size, or a refused argument")

NAMES = ["x", "x_1", "x_10", "u", "h", "h_1", "y.z", "xx"]


def same(a, b):
    return ca.is_equal(a, b)


def vectors(d):
    """a vector of distinct symbols (some sharing a name)"""
    cls = d.choice([ca.SX, ca.SX, ca.MX])
    n = d.int(0, 6)
    syms = [cls.sym(d.choice(NAMES)) for _ in range(n)]
    return cls, syms


def fam_vector(d):
    cls, syms = vectors(d)
    if cls is ca.MX:
        cls = ca.SX
        syms = [ca.SX.sym(s.name()) for s in syms]
    for _ in range(d.weighted([(3, 0), (1, 1), (1, 2)]) if syms else 0):
        syms.insert(d.int(0, len(syms)), d.choice(syms))  # the same symbol twice
        d.label("repeated symbol")
    n = len(syms)
    vec = ca.vertcat(*syms) if syms else ca.SX(0, 1)
    foreign = [ca.SX.sym(d.choice(NAMES)) for _ in range(2)]
    k = d.choice(["find", "find", "remove", "remove", "index", "index", "name", "name"])
    d.label(k)
    if k in ("find", "remove"):
        picks = [d.int(0, n + 1) for _ in range(d.int(0, 4))]
        if k == "remove":
            picks = list(dict.fromkeys(picks))
        objs = [syms[i] if i < n else foreign[i - n] for i in picks]
        var = ca.vertcat(*objs) if objs else ca.SX(0, 1)
        inside = [j for i in picks if i < n for j in range(n) if syms[j] is syms[i]]
        d.interesting(len(inside) > 1 or len(inside) != len(picks))
        got = find_variables_indices_in_vector(var, vec)
        check(list(got) == inside, "indices of the variables", vector=syms, var=objs, got=got, expected=inside)
        if k == "remove":
            if not inside:
                check(raises(lambda: remove_variables_from_vector(var, vec), ValueError), "a variable that is not in the vector is removed", vector=syms, var=objs)
                return
            out = remove_variables_from_vector(var, vec)
            rest = [s for i, s in enumerate(syms) if i not in inside]
            check(out.shape == (len(rest), 1), "shape of the remaining vector", got=out.shape, expected=len(rest))
            check(all(same(out[i], rest[i]) for i in range(len(rest))), "remaining variables", got=out, expected=rest)
            check(vec.shape[0] == n and all(same(vec[i], syms[i]) for i in range(n)), "the given vector changed")
    elif k == "index":
        kind = d.choice(["SX", "DM", "MX"])
        vals = [d.num(-4, 4) for _ in range(n)]
        v = {"SX": vec, "DM": ca.DM(vals) if n else ca.DM(0, 1), "MX": ca.MX(ca.DM(vals)) if n else ca.MX(0, 1)}[kind]
        idx = [d.int(-n - 2, n + 1) for _ in range(d.int(0, 4))]
        given = list(idx)
        bad = [i for i in idx if i >= n or i < -n]
        d.interesting(len(set(idx)) > 1 or bool(bad))
        if bad:
            d.label("out of bounds")
            check(raises(lambda: remove_variables_from_vector_by_indices(idx, v), ValueError), "index out of bounds is accepted", indices=idx, size=n, kind=kind)
            return
        out = remove_variables_from_vector_by_indices(idx, v)
        gone = {i % n for i in idx} if n else set()
        keep = [i for i in range(n) if i not in gone]
        check(idx == given, "the list of indices was changed", got=idx, given=given)
        check(out.numel() == len(keep), "number of remaining elements", indices=idx, size=n, got=out.shape, expected=len(keep))
        if kind == "SX":
            ok = all(same(out[i], syms[j]) for i, j in enumerate(keep))
        elif kind == "DM":
            ok = all(float(out[i]) == vals[j] for i, j in enumerate(keep))
        else:
            ok = gen.close(gen.arr(ca.evalf(out)) if keep else [], [vals[j] for j in keep], 0)
        check(ok, "remaining elements", indices=idx, vector=v, got=out)
    else:
        exact = d.bool()
        pats = [d.choice(NAMES + ["x.*", "h_1$", ".", "h|u", "zz", "x_[0-9]+", "_1"]) for _ in range(d.int(1, 3))]
        d.interesting(len(pats) > 1 or n > 2)
        arg = pats if len(pats) > 1 or d.bool() else pats[0]
        got = find_variables_in_vector_by_name(arg, vec, exact=exact) if exact else find_variables_in_vector_by_name(arg, vec)
        exp = [s for p in pats for s in syms if (s.name() == p if exact else re.compile(p).match(s.name()))]
        check(len(got) == len(exp) and all(same(a, b) for a, b in zip(got, exp)), "variables found by name", names=pats, exact=exact, vector=syms, got=got, expected=exp)


def fam_theta(d):
    k = d.choice(["const", "join", "join", "join"])
    d.label(k)
    if k == "const":
        fe = d.int(0, 13)
        dim = d.choice([d.int(0, 4), (d.int(1, 3), d.int(1, 3))])
        c = d.num(-4, 4)
        n = dim if isinstance(dim, int) else dim[0] * dim[1]
        exp = [c] * n
        cc = c
        if d.bool() and n:
            exp = [d.num(-4, 4) for _ in range(n)]
            cc = ca.reshape(ca.DM(exp), *(dim if isinstance(dim, tuple) else (dim, 1)))
        th = create_constant_theta(cc, dim, fe)
        d.interesting(fe > 1 and n > 1)
        check(list(th) == list(range(fe)), "keys of the constant theta", got=list(th), finite_elements=fe)
        for e, v in th.items():
            check(v.shape == (n, 1) and gen.close(gen.arr(v) if n else [], exp, 0), "value of the constant theta", element=e, got=v, expected=exp)
        if fe > 1 and n:
            th[0][0] = 99.0
            check(gen.close(gen.arr(th[1]), exp, 0), "theta entries share storage")
        return
    m = d.int(0, 4)
    base = list(range(d.int(1, 4)))
    args, exp_keys, bad = [], None, False
    for _ in range(m):
        kind = d.weighted([(5, "full"), (1, "none"), (1, "empty"), (1, "other")])
        if kind == "none":
            args.append(None)
            continue
        if kind == "empty":
            args.append({})
            continue
        keys = d.perm(base) if kind == "full" else d.choice([base + [len(base)], base[:-1], [b + 1 for b in base], [b + 10 for b in base]])
        size = d.int(0, 3)
        args.append({key: ca.DM(d.vec(size, -4, 4)) if size else ca.DM(0, 1) for key in keys})
        if keys:
            if exp_keys is not None and set(keys) != exp_keys:
                bad = True
            exp_keys = exp_keys or set(keys)
    d.interesting(m > 1)
    snap = [None if a is None else {k: np.array(v) for k, v in a.items()} for a in args]
    if bad:
        d.label("refused")
        check(raises(lambda: join_thetas(*args), ValueError), "thetas with different keys are joined", keys=[list(a) if a is not None else None for a in args])
        return
    out = join_thetas(*args)
    check(set(out) == (exp_keys or set()), "keys of the joined theta", got=sorted(out), expected=sorted(exp_keys or []))
    for key in out:
        parts = [np.array(a[key]).reshape(-1) for a in args if a]
        exp = np.concatenate(parts) if parts else np.zeros(0)
        check(out[key].numel() == exp.size and gen.close(gen.arr(out[key]) if exp.size else [], exp, 0), "joined theta", key=key, got=out[key], expected=exp)
    for a, s in zip(args, snap):
        check((a is None) == (s is None) and (a is None or (list(a) == list(s) and all(np.array_equal(np.array(a[k]), s[k]) for k in a))), "a given theta was changed")


def fam_relation(d):
    cls = d.choice([ca.SX, ca.MX])
    n = 1 if cls is ca.SX else d.int(1, 3)
    a, b = cls.sym("a", n), cls.sym("b", n)
    lhs = d.choice([a, a + b, ca.sin(a), 2 * a - b])
    rhs = d.choice([b, cls(d.num(-2, 2)), d.num(-2, 2), b * b])
    op = d.choice(["<", "<=", ">", ">=", "==", "!=", "+", "and", "not"])
    d.label(op)
    d.interesting()
    e = {"<": lambda: lhs < rhs, "<=": lambda: lhs <= rhs, ">": lambda: lhs > rhs, ">=": lambda: lhs >= rhs, "==": lambda: lhs == rhs, "!=": lambda: lhs != rhs,
         "+": lambda: lhs + rhs, "and": lambda: ca.logic_and(lhs <= rhs, lhs >= rhs), "not": lambda: ca.logic_not(lhs == rhs)}[op]()
    check(bool(is_inequality(e)) == (op in ("<", "<=", ">", ">=")), "is_inequality", expr=e, got=is_inequality(e))
    if op != "not":  # CasADi rewrites not(a==b) itself
        check(bool(is_equality(e)) == (op == "=="), "is_equality", expr=e, got=is_equality(e))
    for v in (1.0, True, None, "x<=1", ca.DM(1.0)):
        check(not is_equality(v) and not is_inequality(v), "a value that is not an expression is a relation", value=v)


def fam_expm(d):
    n = d.int(1, 4)
    A = np.array([[d.num(-1.5, 1.5) if d.bool() else 0.0 for _ in range(n)] for _ in range(n)])
    form = d.choice(["DM", "sparse", "MX"])
    d.label(form)
    d.interesting(n > 1)
    M = ca.DM(A)
    if form == "sparse":
        M = ca.sparsify(M)
    out = expm(ca.MX(M)) if form == "MX" else expm(M)
    out = gen.mat(ca.evalf(out) if form == "MX" else out)
    ref = sp_expm(A)
    check(out.shape == (n, n) and np.max(np.abs(out - ref)) <= 1e-4 * max(1.0, np.max(np.abs(ref))), "matrix exponential", A=A.tolist(), got=out, expected=ref)


def fam_time(d):
    t, tau, x = ca.SX.sym("t"), ca.SX.sym("tau"), ca.SX.sym("x")
    vs = ["x", "tau", "t"]
    es = [gen.expr(d, vs, 3) for _ in range(d.int(1, 3))]
    env = {"x": x, "tau": tau, "t": t}
    e = ca.vertcat(*[gen.to_sx(a, env) for a in es])
    tk = d.num(-3, 3)
    tk1 = tk + d.num(0.125, 4)
    out = convert_expr_from_tau_to_time(e, t, tau, tk, tk1)
    d.interesting(any("tau" in gen.expr_vars(a) for a in es))
    check(not ca.depends_on(out, tau), "the converted expression depends on tau")
    for _ in range(2):
        s = d.num(0, 1)
        tv, xv = tk + s * (tk1 - tk), d.num(-2, 2)
        got = gen.arr(ca.Function("f", [t, x], [out])(tv, xv))
        exp = [gen.evalf(a, {"x": xv, "tau": s, "t": tv}) for a in es]
        check(gen.close(got, exp, 1e-9), "value in time", t_k=tk, t_kp1=tk1, t=tv, got=got, expected=exp)


def lagrange(nodes, vals, s):
    return sum(v * np.prod([(s - nodes[k]) / (nodes[j] - nodes[k]) for k in range(len(nodes)) if k != j]) for j, v in enumerate(vals))


def fam_polynomial(d):
    size, degree, zero = d.int(0, 3), d.int(1, 6), d.bool()
    tau = ca.SX.sym("tau")
    names = d.choice([None, "w", ["q%d" % i for i in range(size)]])
    kw = {} if names is None else {"name": names}
    given = list(names) if isinstance(names, list) else None
    pol, par = create_polynomial_approximation(tau, size, degree, point_at_zero=zero, **kw)
    nodes = ca.collocation_points(degree, "radau")
    if zero and degree > 1:
        nodes = [0.0] + list(nodes)
    n = len(nodes)
    d.interesting(size > 0 and degree > 1)
    d.label("deg%d%s" % (degree, "+0" if zero else ""))
    check(pol.shape[0] == size and (pol.shape[1] == 1 or size == 0), "shape of the polynomial", got=pol.shape)
    check(par.numel() == size * n, "number of parameters", got=par.numel(), expected=size * n)
    if given is not None:
        check(names == given, "the list of names was changed")
    if size == 0:
        return
    check(par.is_valid_input(), "parameters are symbols", par=par)
    base = names if isinstance(names, list) else [(names or "var_appr") + "_%d" % i for i in range(size)]
    check(all(par[j * size + i].name().startswith(base[i]) for i in range(size) for j in range(n)), "names of the parameters", got=par, expected=base)
    vals = np.array([d.vec(n, -2, 2) for _ in range(size)])
    f = ca.Function("f", [tau, par], [pol])
    for s in list(nodes) + [0.0, 0.5, 1.0, d.num(-1, 2)]:
        got = gen.arr(f(s, ca.DM(vals.T.reshape(-1))))
        exp = [vals[i][0] if degree == 1 else lagrange(nodes, vals[i], s) for i in range(size)]
        check(gen.close(got, exp, 1e-8), "value of the polynomial", degree=degree, point_at_zero=zero, tau=s, got=got, expected=exp)


def fam_timer(d):
    tm = Timer()
    check(raises(lambda: tm.elapsed, ValueError) and raises(lambda: tm.elapsed_milisecs, ValueError), "a timer that was not run has an elapsed time")
    clock = [d.num(0, 5)]
    tm.timer = lambda: clock[0]
    total = 0.0
    try:
        with tm:
            for _ in range(d.int(0, 3)):
                clock[0] += d.num(0, 3)
                total = clock[0] - tm.start
            if d.bool():
                d.label("exception")
                raise KeyError("x")
    except KeyError:
        pass
    d.interesting()
    check(gen.close([tm.elapsed, tm.elapsed_milisecs], [total, 1000 * total], 1e-12), "elapsed time", got=tm.elapsed, expected=total)


FAMILIES = [
    Family("vector", fam_vector, 5400, 32400, shards=4, tshards=8),
    Family("theta", fam_theta, 3000, 18000, shards=4, tshards=4),
    Family("relation", fam_relation, 1200, 7200),
    Family("expm", fam_expm, 360, 2160),
    Family("time", fam_time, 1200, 7200),
    Family("polynomial", fam_polynomial, 1500, 9000),
    Family("timer", fam_timer, 60, 500),
]
