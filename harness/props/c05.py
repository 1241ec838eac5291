"""C05: an optimization problem contains exactly what was included in it"""
import math

import casadi as ca
import gen
import numpy as np
from core import Family, Violation, check
from yaocptool.optimization import NonlinearOptimizationProblem, QuadraticOptimizationProblem

RULE = ("random histories of create/include/objective/constraint calls (scalars, vectors, floats, ints, lists, sparse DMs, all relational spellings) and of "
        "calls that must be refused, compared after every call with an ordered reference program evaluated numerically. Non-trivial: a constraint or a "
        "refused call after at least two variables existed")
INF = math.inf


def mx(e, env):
    op = e[0]
    if op == "c":
        return ca.MX(e[1])
    if op == "v":
        return env[e[1]]
    if op == "sin":
        return ca.sin(mx(e[1], env))
    a, b = mx(e[1], env), mx(e[2], env)
    return a + b if op == "+" else a - b if op == "-" else a * b


class Hist:
    def __init__(self, d):
        self.d = d
        self.cls = d.choice([NonlinearOptimizationProblem, QuadraticOptimizationProblem])
        self.pb = self.cls(name="prob")
        self.xs, self.ps = [], []  # element names
        self.lb, self.ub = [], []
        self.env = {}
        self.f = None
        self.g, self.glb, self.gub = [], [], []
        self.k = 0

    def bounds(self, n):
        """consistent lb/ub in some accepted form; returns (lb arg, ub arg, lb list, ub list)"""
        d = self.d
        lo = [d.choice([-INF, -2.0, 0.0, 1.0, d.num(-3, 0)]) for _ in range(n)]
        hi = [d.choice([INF, max(l, 0.0) if l > -INF else 0.0, (l if l > -INF else -1.0) + d.num(0, 3)]) for l in lo]
        a, b = self.form(lo), self.form(hi)
        return a[0], b[0], a[1], b[1]

    def form(self, v):
        d = self.d
        n = len(v)
        k = d.int(0, 4)
        if k == 0:
            return float(v[0]), [v[0]] * n
        if k == 1 and math.isfinite(v[0]):
            return int(math.floor(v[0])), [float(math.floor(v[0]))] * n
        if k == 2:
            z = ca.DM(n, 1)
            for i in range(n):
                if v[i] != 0:
                    z[i] = v[i]
            return z, list(v)
        if k == 3 and n > 1:
            return ca.DM([v[0]]), [v[0]] * n
        return ca.DM(v), list(v)

    def ok(self, lo, hi):
        return all(a <= b for a, b in zip(lo, hi))

    # -- operations
    def op_var(self):
        d = self.d
        n = d.int(1, 3)
        name = "x%d" % self.k
        self.k += 1
        kw, lo, hi = {}, [-INF] * n, [INF] * n
        a, b, l, h = self.bounds(n)
        which = d.int(0, 3)
        if which & 1:
            kw["lb"], lo = a, l
        if which & 2:
            kw["ub"], hi = b, h
        good = self.ok(lo, hi)
        try:
            if d.bool():
                v = self.pb.create_variable(name, n, **kw)
            else:
                v = ca.MX.sym(name, n)
                self.pb.include_variable(v, **kw)
        except ValueError:
            check(not good, "a variable with consistent bounds was refused", lb=lo, ub=hi)
            d.label("reject")
            return
        check(good, "a variable with crossing bounds was accepted", lb=lo, ub=hi)
        check(v.numel() == n, "size of the created variable")
        for i in range(n):
            self.xs.append("%s_%d" % (name, i))
            self.env["%s_%d" % (name, i)] = v[i]
        self.lb += lo
        self.ub += hi

    def op_par(self):
        d = self.d
        n = d.int(1, 2)
        name = "p%d" % self.k
        self.k += 1
        if d.bool():
            v = self.pb.create_parameter(name, n)
        else:
            v = ca.MX.sym(name, n)
            self.pb.include_parameter(v)
        check(v.numel() == n, "size of the created parameter")
        for i in range(n):
            self.ps.append("%s_%d" % (name, i))
            self.env["%s_%d" % (name, i)] = v[i]

    def exprs(self, n):
        out = []
        for _ in range(n):
            e = gen.expr(self.d, self.xs + self.ps, 2)
            out.append(("+", e, ("v", self.d.choice(self.xs))))
        return out

    def op_obj(self):
        if not self.xs:
            return
        e = self.exprs(1)[0]
        if self.d.int(0, 5) == 0:
            self.pb.set_objective(2.5)
            e = ("c", 2.5)
        elif self.d.bool():
            self.pb.set_objective([mx(e, self.env)])
        else:
            self.pb.set_objective(mx(e, self.env))
        self.f = e

    def op_ineq(self):
        d = self.d
        if not self.xs:
            return
        n = d.int(1, 3)
        es = self.exprs(n)
        ex = ca.vertcat(*[mx(e, self.env) for e in es])
        kw, lo, hi = {}, [-INF] * n, [INF] * n
        a, b, l, h = self.bounds(n)
        which = d.int(0, 3)
        if which & 1:
            kw["lb"], lo = a, l
        if which & 2:
            kw["ub"], hi = b, h
        if which == 3 and n > 1 and d.int(0, 3) == 0:
            kw["lb"], lo = [float(q) for q in l], l
        good = self.ok(lo, hi)
        try:
            self.pb.include_inequality(ex, **kw)
        except ValueError:
            check(not good, "a consistent inequality was refused", lb=lo, ub=hi)
            d.label("reject")
            return
        check(good, "an inequality with crossing bounds was accepted", lb=lo, ub=hi)
        self.g += es
        self.glb += lo
        self.gub += hi
        d.interesting(len(self.xs) > 1)
        d.label("ineq")

    def op_eq(self):
        d = self.d
        if not self.xs:
            return
        n = d.int(1, 3)
        es = self.exprs(n)
        ex = ca.vertcat(*[mx(e, self.env) for e in es])
        if d.bool():
            self.pb.include_equality(ex)
            rhs = [0.0] * n
        else:
            a, rhs = self.form(d.vec(n, -2, 2))
            self.pb.include_equality(ex, a)
        self.g += es
        self.glb += rhs
        self.gub += rhs
        d.interesting(len(self.xs) > 1)
        d.label("eq")

    def op_rel(self):
        d = self.d
        if not self.xs:
            return
        n = d.int(1, 3)
        es = self.exprs(n)
        ex = ca.vertcat(*[mx(e, self.env) for e in es])
        c = d.vec(n, -2, 2)
        if d.bool():
            cv, c = float(c[0]), [c[0]] * n
        else:
            cv = ca.DM(c)
        op = d.int(0, 9)
        kind, rel = [("ub", lambda: ex <= cv), ("lb", lambda: ex >= cv), ("lb", lambda: cv <= ex), ("ub", lambda: cv >= ex), ("ub", lambda: ex < cv),
                     ("lb", lambda: ex > cv), ("lb", lambda: cv < ex), ("ub", lambda: cv > ex), ("eq", lambda: ex == cv), ("eq", lambda: ca.MX(cv) == ex)][op]
        r = rel()
        if not isinstance(r, ca.MX) or r.op() not in (ca.OP_LE, ca.OP_LT, ca.OP_EQ) or not (r.dep(0).is_constant() or r.dep(1).is_constant()) \
                or (r.dep(0).is_constant() and r.dep(1).is_constant()):
            return  # casadi folded or rewrote the relation
        if not ca.symvar(ex):
            return  # the expression folded to a vector of constants: not a constraint on the variables
        self.pb.include_constraint(r)
        self.g += es
        self.glb += [-INF] * n if kind == "ub" else c
        self.gub += [INF] * n if kind == "lb" else c
        d.interesting(len(self.xs) > 1)
        d.label("rel_" + kind)

    def op_reject(self):
        d, pb = self.d, self.pb
        if not self.xs:
            return
        x = self.env[d.choice(self.xs)]
        y = self.env[d.choice(self.xs)]
        new = ca.MX.sym("new", 2)
        e2 = ca.vertcat(x + 1, ca.sin(y))
        opts = [("crossing bounds", lambda: pb.include_variable(new, lb=ca.DM([0, 2]), ub=ca.DM([1, 1]))),
                ("crossing bounds, last", lambda: pb.create_variable("n", 3, lb=0.0, ub=ca.DM([0, 1, -0.5]))),
                ("bound size", lambda: pb.include_variable(new, lb=ca.DM([0, 1, 2]))),
                ("bound size ub", lambda: pb.include_variable(new, ub=ca.DM([0, 1, 2]))),
                ("ineq bound size", lambda: pb.include_inequality(e2, ub=ca.DM([1, 2, 3]))),
                ("ineq bound size lb", lambda: pb.include_inequality(e2, lb=ca.DM([1, 2, 3]))),
                ("ineq crossing", lambda: pb.include_inequality(e2, lb=ca.DM([0, 1]), ub=ca.DM([1, 0.5]))),
                ("ineq matrix", lambda: pb.include_inequality(ca.horzcat(x, y), ub=1.0)),
                ("eq matrix", lambda: pb.include_equality(ca.horzcat(x, y))),
                ("eq size", lambda: pb.include_equality(e2, ca.DM([1, 2, 3]))),
                ("ineq bound depends on x", lambda: pb.include_inequality(e2, ub=ca.vertcat(x, x))),
                ("eq rhs depends on x", lambda: pb.include_equality(e2, ca.vertcat(1, y))),
                ("both sides", lambda: pb.include_constraint(x + 1 <= ca.sin(y))),
                ("not relational", lambda: pb.include_constraint(x + y)),
                ("vector objective", lambda: pb.set_objective(e2)),
                ]
        if self.ps:
            p = self.env[d.choice(self.ps)]
            opts += [("variable bound depends on p", lambda: pb.include_variable(ca.MX.sym("n"), lb=p)),
                     ("variable bound depends on p ub", lambda: pb.include_variable(ca.MX.sym("n"), ub=p + 1)),
                     ("ineq bound depends on p", lambda: pb.include_inequality(x, lb=p)),
                     ("both sides p", lambda: pb.include_constraint(x + 1 <= p)),
                     ("rhs depends on p", lambda: pb.include_equality(x, p))]
        nm, fn = d.choice(opts)
        d.label("reject")
        d.interesting(len(self.xs) > 1)
        d.note(nm)
        try:
            fn()
        except Exception:
            return
        raise Violation("a call that must be refused was accepted: " + nm)

    # -- oracle
    def compare(self):
        pb = self.pb
        check(pb.x.numel() == len(self.xs) and pb.p.numel() == len(self.ps), "number of variables/parameters", x=pb.x, p=pb.p)
        cd = pb.get_default_call_dict()
        check(gen.close(gen.arr(cd["lbx"]), self.lb) and gen.close(gen.arr(cd["ubx"]), self.ub), "variable bounds are not those given", got=(cd["lbx"], cd["ubx"]),
              expected=(self.lb, self.ub))
        check(gen.arr(cd["lbg"]).size == len(self.g) and gen.arr(cd["ubg"]).size == len(self.g), "number of constraint bounds", got=cd["lbg"], expected=len(self.g))
        if not self.xs:
            return
        pd = pb.get_problem_dict()
        check(set(pd) == {"f", "g", "x", "p"}, "problem dict keys")
        ins = [pd["x"], pd["p"]] if self.ps else [pd["x"]]
        f = ca.Function("fg", ins, [pd["f"], pd["g"]])
        for k in range(2):
            xv = [gen.point(i, k) for i in range(len(self.xs))]
            pv = [gen.point(i + 50, k) for i in range(len(self.ps))]
            env = dict(zip(self.xs + self.ps, xv + pv))
            fv, gv = f(*([ca.DM(xv), ca.DM(pv)] if self.ps else [ca.DM(xv)]))
            if self.f is not None:
                check(gen.close(gen.arr(fv), [gen.evalf(self.f, env)]), "objective is not the one set last", got=fv)
            gv = gen.arr(gv) if len(self.g) else np.zeros(0)
            check(gv.size == len(self.g), "number of constraints", got=gv.size, expected=len(self.g))
            lbg, ubg = gen.arr(cd["lbg"]), gen.arr(cd["ubg"])
            ref = np.array([gen.evalf(e, env) for e in self.g])
            got_v = np.maximum(lbg - gv, gv - ubg)
            exp_v = np.maximum(np.array(self.glb) - ref, ref - np.array(self.gub))
            check(gen.close(got_v, exp_v), "constraints are not those included (violation of each row at a point differs)", got=got_v, expected=exp_v, g=pd["g"],
                  lbg=lbg, ubg=ubg)


OPS = [(3, "op_var"), (1, "op_par"), (1, "op_obj"), (3, "op_ineq"), (2, "op_eq"), (4, "op_rel"), (3, "op_reject")]


def history(d):
    h = Hist(d)
    h.op_var()
    h.compare()
    for _ in range(d.int(1, 10)):
        op = d.weighted(OPS)
        getattr(h, op)()
        d.note(op)
        h.compare()


FAMILIES = [Family("history", history, 12000, 72000, shards=8, tshards=8)]
