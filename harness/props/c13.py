"""C13: bounds and guesses follow their variables through problem editing (reference-model histories)"""
import warnings

import casadi as ca
import gen
import numpy as np
from core import Family, Violation, check
from yaocptool.modelling import OptimalControlProblem, SystemModel

RULE = ("random histories of create/include/remove/connect/replace/parametrize/optimization-parameter/constraint/cost calls (and calls that must be refused) on an optimal "
        "control problem built on a random model, against a reference with bounds, guesses and initial values stored per variable; compared after every call. "
        "Non-trivial: a removal, connection, replacement, parametrization or refused call happened on a problem with at least two variables of one kind")

KINDS = ["x", "y", "u", "p", "theta"]
INF = np.inf


class Hist:
    def __init__(self, d, start=0, min_u=0, min_y=0, **times):
        self.d = d
        self.n = start
        self.sx, self.name = {}, {}
        self.vec = {k: [] for k in KINDS}
        self.lo, self.hi, self.dlo, self.dhi, self.x0 = {}, {}, {}, {}, {}
        self.ug = self.yg = self.last = None  # {uid: value}
        self.popt, self.thopt = [], []
        self.h_initial, self.h_final, self.h, self.g_eq, self.g_ineq = [], [], [], [], []
        self.L = self.V = self.S = ("c", 0.0)
        self.ode, self.alg, self.uexpr, self.upar, self.par = {}, [], {}, [], []
        m = SystemModel(name="m")
        self.sx["t"], self.sx["tau"] = m.t, m.tau
        base = {"x": d.int(0, 2), "y": d.int(min_y, 2), "u": d.int(min_u, 2), "p": d.int(0, 2), "theta": d.int(0, 1)}
        for k, fn in (("x", m.create_state), ("y", m.create_algebraic_variable), ("u", m.create_control), ("p", m.create_parameter), ("theta", m.create_theta)):
            for _ in range(base[k]):
                v = fn("%s%d" % (k, self.n))
                self.vec[k] += self.reg(v)
        self.m0 = m
        for i, q in enumerate(self.vec["x"]):
            self.new_x0(q, m.x_0[i])
        if self.vec["x"]:
            es = self.exprs(len(self.vec["x"]))
            m.include_equations(ode=[gen.to_sx(e, self.sx) for e in es])
            self.ode.update(zip(self.vec["x"], es))
        for q in self.vec["y"]:
            e = self.exprs(1)[0]
            m.include_equations(alg=[gen.to_sx(e, self.sx)])
            self.alg.append(e)
        self.uexpr = {q: ("v", q) for q in self.vec["u"]}
        self.upar = list(self.vec["u"])
        kw = dict(times)
        for q in self.vec["x"] + self.vec["y"] + self.vec["u"]:
            self.lo[q], self.hi[q] = -INF, INF
        for q in self.vec["u"]:
            self.dlo[q], self.dhi[q] = -INF, INF
        self.h_initial = [("-", ("v", q), ("v", q + "_0")) for q in self.vec["x"]]
        for q in self.vec["x"]:
            self.x0[q] = d.num(-1, 1)
        if self.vec["x"] or d.bool():
            kw["x_0"] = self.give([self.x0[q] for q in self.vec["x"]])
        for a, k, dst, lo, hi in (("x_max", "x", self.hi, 0, 3), ("x_min", "x", self.lo, -3, 0), ("y_max", "y", self.hi, 0, 3), ("y_min", "y", self.lo, -3, 0),
                                  ("u_max", "u", self.hi, 0, 3), ("u_min", "u", self.lo, -3, 0), ("delta_u_max", "u", self.dhi, 0, 3), ("delta_u_min", "u", self.dlo, -3, 0)):
            if self.vec[k] and d.int(0, 2) == 0:
                v = d.vec(len(self.vec[k]), lo, hi)
                dst.update(zip(self.vec[k], v))
                kw[a] = gen.dmv(v)
        if self.vec["u"] and d.bool():
            self.ug = dict(zip(self.vec["u"], d.vec(base["u"], -1, 1)))
            kw["u_guess"] = gen.dmv(list(self.ug.values()))
        if self.vec["y"] and d.bool():
            self.yg = dict(zip(self.vec["y"], d.vec(base["y"], -1, 1)))
            kw["y_guess"] = gen.dmv(list(self.yg.values()))
        if self.vec["u"] and d.bool():
            self.last = dict(zip(self.vec["u"], d.vec(base["u"], -1, 1)))
            kw["last_u"] = gen.dmv(list(self.last.values()))
        if d.int(0, 3) == 0:
            kw["positive_objective"] = True
        self.positive = kw.get("positive_objective", False)
        if d.int(0, 3) == 0 and (self.vec["x"] or self.vec["u"]):
            kw["obj"] = self.quad()
        self.o = OptimalControlProblem(m, name="prob", **kw)
        self.m0_sig = self.sig_model()

    # ---- helpers
    def reg(self, var):
        out = []
        for s in ca.vec(var).nz:
            q = "v%d" % self.n
            self.n += 1
            self.sx[q], self.name[q] = s, s.name()
            out.append(q)
        return out

    def new_x0(self, q, s):
        self.sx[q + "_0"] = s

    def give(self, v):
        """numbers in one of the accepted forms"""
        v = [float(a) for a in v]
        return v if self.d.bool() else gen.dmv(v)

    def live(self, *kinds):
        return [v for k in (kinds or KINDS) for v in self.vec[k]]

    def exprs(self, n, names=None, depth=2):
        return [gen.expr(self.d, (self.live() if names is None else names) + ["tau"], depth, "t") for _ in range(n)]

    def tosx(self, es):
        return [gen.to_sx(e, self.sx) for e in es]

    def vsx(self, us):
        return ca.vertcat(*[self.sx[q] for q in us])

    def sig_model(self):
        m = self.m0
        return [str(v) for v in (m.x, m.y, m.u, m.p, m.theta, m.ode, m.alg, m.u_expr, m.u_par)]

    def quad(self):
        d = self.d
        X, U = self.vec["x"], self.vec["u"]
        obj = {}
        xr = [0.0] * len(X)
        ur = [0.0] * len(U)
        if X and d.bool():
            xr = d.vec(len(X), -1, 1)
            obj["x_ref"] = gen.dmv(xr)
        if U and d.bool():
            ur = d.vec(len(U), -1, 1)
            obj["u_ref"] = gen.dmv(ur)
        self.L = self.V = ("c", 0.0)

        def form(M, vs, ref):
            e = ("c", 0.0)
            for i, a in enumerate(vs):
                for j, b in enumerate(vs):
                    e = ("+", e, ("*", ("c", M[i][j]), ("*", ("-", ("v", a), ("c", ref[i])), ("-", ("v", b), ("c", ref[j])))))
            return e

        for key, vs, ref, dst in (("Q", X, xr, "L"), ("R", U, ur, "L"), ("Qv", X, xr, "V"), ("Rv", X, [0.0] * len(X), "V")):
            if vs and d.bool():
                M = [d.vec(len(vs), -2, 2) for _ in vs]
                obj[key] = ca.DM(M)
                setattr(self, dst, ("+", getattr(self, dst), form(M, vs, ref)))
        return obj

    def bound(self, n, lo, hi, none, scalar=False):
        """(argument, values)"""
        d = self.d
        k = d.int(0, 3)
        if k == 0:
            return None, [none] * n
        if scalar and k == 1:
            v = d.num(lo, hi)
            return (v if d.bool() else ca.DM(v)), [v] * n
        v = [none if d.int(0, 4) == 0 else d.num(lo, hi) for _ in range(n)]
        return self.give(v), v

    # ---- operations
    def op_state(self):
        d = self.d
        n = d.int(1, 3)
        how = d.int(0, 2)
        lo_a, lo = self.bound(n, -3, 0, -INF)
        hi_a, hi = self.bound(n, 0, 3, INF)
        es = self.exprs(n) if d.bool() else None
        kw = dict(x_min=lo_a, x_max=hi_a)
        if es:
            kw["ode"] = ca.vertcat(*self.tosx(es))
        x0 = d.vec(n, -1, 1)
        if how < 2:
            kw["x_0"] = self.give(x0)
        if how == 0:
            v = self.o.create_state("s%d" % self.n, size=n, **kw)
        else:
            v = ca.SX.sym("s%d" % self.n, n)
            if how == 2:
                x0 = [0.0] * n
                hi_e = self.exprs(d.int(1, 2))
                kw["h_initial"] = ca.vertcat(*self.tosx(hi_e))
            own = ca.SX.sym("ini%d" % self.n, n) if d.bool() else None
            self.o.include_state(v, x_0_sym=own, **kw)
            if own is not None:
                check(ca.is_equal(self.o.model.x_0[-n:], own, 1), "initial-condition symbols", got=self.o.model.x_0)
        check(v.numel() == n, "created variable")
        us = self.reg(v)
        self.vec["x"] += us
        for i, q in enumerate(us):
            self.new_x0(q, self.o.model.x_0[self.o.model.n_x - n + i])
            self.lo[q], self.hi[q], self.x0[q] = lo[i], hi[i], x0[i]
            if es:
                self.ode[q] = es[i]
        if how == 2:
            self.h_initial += hi_e
        else:
            self.h_initial += [("-", ("v", q), ("v", q + "_0")) for q in us]
        d.label("state")

    def op_alg(self):
        d = self.d
        n = d.int(1, 2)
        lo_a, lo = self.bound(n, -3, 0, -INF)
        hi_a, hi = self.bound(n, 0, 3, INF)
        kw = dict(y_min=lo_a, y_max=hi_a)
        es = self.exprs(n) if d.bool() else None
        if es:
            kw["alg"] = ca.vertcat(*self.tosx(es))
        g = None
        if (self.yg is not None or not self.vec["y"]) and d.bool():
            g = d.vec(n, -1, 1)
            kw["y_guess"] = self.give(g)
        if d.bool():
            v = self.o.create_algebraic("a%d" % self.n, size=n, **kw)
        else:
            v = ca.SX.sym("a%d" % self.n, n)
            self.o.include_algebraic(v, **kw)
        us = self.reg(v)
        if self.yg is None and g is not None:
            self.yg = {}
        if self.yg is not None:
            self.yg.update(zip(us, g or [0.0] * n))
        self.vec["y"] += us
        self.lo.update(zip(us, lo))
        self.hi.update(zip(us, hi))
        if es:
            self.alg += es
        d.label("algebraic")

    def op_control(self):
        d = self.d
        n = d.int(1, 3)
        lo_a, lo = self.bound(n, -3, 0, -INF, True)
        hi_a, hi = self.bound(n, 0, 3, INF, True)
        dlo_a, dlo = self.bound(n, -3, 0, -INF, True)
        dhi_a, dhi = self.bound(n, 0, 3, INF, True)
        kw = dict(u_min=lo_a, u_max=hi_a, delta_u_min=dlo_a, delta_u_max=dhi_a)
        g = None
        if self.ug is not None or (not self.vec["u"] and d.bool()):
            g = d.vec(n, -1, 1)
            kw["u_guess"] = self.give(g)
        if self.last is not None:
            return
        how = d.int(0, 2)
        if how < 2:
            v = (self.o.create_control if how else self.o.create_input)("c%d" % self.n, size=n, **kw)
        else:
            v = ca.SX.sym("c%d" % self.n, n)
            self.o.include_control(v, **kw)
        us = self.reg(v)
        if g is not None:
            self.ug = self.ug if self.ug is not None else {}
            self.ug.update(zip(us, g))
        self.vec["u"] += us
        for dst, v in ((self.lo, lo), (self.hi, hi), (self.dlo, dlo), (self.dhi, dhi)):
            dst.update(zip(us, v))
        self.uexpr.update({q: ("v", q) for q in us})
        self.upar += us
        d.label("control")

    def op_par(self):
        d, o = self.d, self.o
        kind = d.choice(["p", "theta"])
        n = d.int(1, 2)
        how = d.int(0, 4)
        opt = self.popt if kind == "p" else self.thopt
        lo_a, lo = self.bound(n, -3, 0, -INF)
        hi_a, hi = self.bound(n, 0, 3, INF)
        nm = "r%d" % self.n
        if how == 0:
            us = self.reg((o.create_parameter if kind == "p" else o.create_theta)(nm, n))
        elif how == 1:
            v = ca.SX.sym(nm, n)
            (o.include_parameter if kind == "p" else o.include_theta)(v)
            us = self.reg(v)
        elif how == 2:
            if kind == "p":
                v = o.create_optimization_parameter(nm, n, p_opt_min=lo_a, p_opt_max=hi_a)
            else:
                v = o.create_optimization_theta(nm, n, new_theta_opt_min=lo_a, new_theta_opt_max=hi_a)
            us = self.reg(v)
        elif how == 3:
            v = ca.SX.sym(nm, n)
            if kind == "p":
                o.include_optimization_parameter(v, p_opt_min=lo_a, p_opt_max=hi_a)
            else:
                o.include_optimization_theta(v, theta_opt_min=lo_a, theta_opt_max=hi_a)
            us = self.reg(v)
        else:
            pool = [q for q in self.vec[kind] if q not in opt]
            if not pool:
                return
            us = d.perm(d.subset(pool, 1))
            lo_a, lo = self.bound(len(us), -3, 0, -INF)
            hi_a, hi = self.bound(len(us), 0, 3, INF)
            v = self.vsx(us)
            if kind == "p":
                o.set_parameter_as_optimization_parameter(v, new_p_opt_min=lo_a, new_p_opt_max=hi_a)
            else:
                o.set_theta_as_optimization_theta(v, new_theta_opt_min=lo_a, new_theta_opt_max=hi_a)
        if how != 4:
            self.vec[kind] += us
        if how >= 2:
            opt += us
            self.lo.update(zip(us, lo))
            self.hi.update(zip(us, hi))
            d.label("optimization " + kind)

    def op_constraint(self):
        d, o = self.d, self.o
        kind = d.choice(["h_initial", "h_final", "g_eq", "g_ineq", "h"])
        es = self.exprs(d.int(1, 4), names=self.live("p") if kind == "h" else None)
        if kind == "h":
            es = [gen.subst(e, {"t": ("c", 1.0), "tau": ("c", 0.0)}) for e in es]
        a = self.tosx(es)
        how = d.int(0, 2)
        if how == 0:
            a = ca.vertcat(*a)
        elif how == 1 and len(a) > 1:  # a list of vectors
            k = d.int(1, len(a) - 1)
            a = [ca.vertcat(*a[:k]), ca.vertcat(*a[k:])]
            d.label("list of vectors")
        if kind == "h_initial":
            o.include_initial_time_equality(a)
        elif kind == "h_final":
            o.include_final_time_equality(a)
        elif kind == "h":
            o.include_equality(a)
        else:
            when = d.choice([None, "default", "end", "start"])
            fn = o.include_time_equality if kind == "g_eq" else o.include_time_inequality
            fn(a) if when is None else fn(a, when=when)
            es = [(e, when or "default") for e in es]
        getattr(self, kind).extend(es)
        d.label("constraint")

    def op_cost(self):
        d, o = self.d, self.o
        k = d.int(0, 4)
        if k < 3:
            a = "LVS"[k]
            e = self.exprs(1)[0]
            setattr(self, a, e)
            setattr(o, a, gen.to_sx(e, self.sx))
        elif k == 3 and (self.vec["x"] or self.vec["u"]):
            obj = self.quad()
            keys, txt = list(obj), str(obj)
            o.create_quadratic_cost(obj)
            check(list(obj) == keys and str(obj) == txt, "create_quadratic_cost changed its argument", before=txt, after=obj)
        elif k == 4:
            v = o.create_cost_state()
            q = self.reg(v)[0]
            self.vec["x"].append(q)
            self.new_x0(q, o.model.x_0[o.model.n_x - 1])
            self.ode[q] = self.L
            self.lo[q], self.hi[q], self.x0[q] = (0.0 if self.positive else -INF), INF, 0.0
            self.h_initial.append(("-", ("v", q), ("v", q + "_0")))
            check(ca.is_equal(o.x_cost, v), "x_cost is not the cost state")
            d.label("cost state")

    def op_equations(self):
        d, o = self.d, self.o
        xs = [q for q in self.vec["x"] if q not in self.ode]
        alg = self.exprs(d.int(1, 2)) if d.bool() else None
        kw = {}
        n_lead = len([q for q in self.vec["x"] if q in self.ode])
        if xs and n_lead == 0:
            es = self.exprs(len(xs))
            kw["ode"] = self.tosx(es) if d.bool() else ca.vertcat(*self.tosx(es))
            self.ode.update(zip(xs, es))
        if alg:
            kw["alg"] = self.tosx(alg)
            self.alg += alg
        if kw:
            o.include_system_equations(**kw)
            d.label("equations")

    def many(self):
        return any(len(self.vec[k]) > 1 for k in ("y", "u"))

    def op_remove(self):
        d, o = self.d, self.o
        free = [u for u in self.vec["u"] if u not in self.par]
        if self.vec["y"] and (not free or d.bool()):
            us = d.subset(self.vec["y"], 1)[:2]
            v = self.vsx(d.perm(us))
            if len(us) == 1 and self.alg and d.bool():
                i = d.int(0, len(self.alg) - 1)
                node = o.model.alg[i]
                same = [j for j in range(o.model.alg.numel()) if ca.is_equal(o.model.alg[j], node, 0)]
                o.remove_algebraic(v, node)
                self.alg = [e for j, e in enumerate(self.alg) if j not in same]
            else:
                o.remove_algebraic(v)
            self.vec["y"] = [q for q in self.vec["y"] if q not in us]
            if self.yg is not None:
                self.yg = {q: g for q, g in self.yg.items() if q not in us}
            d.label("remove algebraic")
        elif free:
            us = d.subset(free, 1)[:2]
            o.remove_control(self.vsx(d.perm(us)))
            self.drop_u(us)
            d.label("remove control")
        else:
            return
        d.interesting(self.many())

    def drop_u(self, us):
        self.vec["u"] = [q for q in self.vec["u"] if q not in us]
        for a in ("ug", "last"):
            if getattr(self, a) is not None:
                setattr(self, a, {q: g for q, g in getattr(self, a).items() if q not in us})
        for q in us:
            self.uexpr.pop(q)
        self.upar = [q for q in self.upar if q not in us]

    def op_connect(self):
        d, o = self.d, self.o
        free = [u for u in self.vec["u"] if u not in self.par]
        if not free:
            return
        us = d.perm(d.subset(free, 1))[:2]
        rep = d.bool()
        if rep or d.bool():
            if len(self.vec["y"]) < len(us):
                return
            ys = d.perm(self.vec["y"])[: len(us)]
            es = [("v", q) for q in ys]
        else:
            es = self.exprs(len(us), names=[q for q in self.live() if q not in us])
            d.label("connect to an expression")
        a, b = [self.sx[q] for q in us], self.tosx(es)
        if d.bool():
            a, b = ca.vertcat(*a), ca.vertcat(*b)
        elif len(us) == 1 and d.bool():
            a, b = a[0], b[0]
        if rep:
            o.connect(a, b, replace=True)
            self.substitute(dict(zip(us, es)))
            for q, y in zip(us, ys):
                self.hi[y] = min(self.hi[y], self.hi[q])
                self.lo[y] = max(self.lo[y], self.lo[q])
            d.label("connect replace")
        else:
            o.connect(a, b) if d.bool() else o.connect(a, b, replace=False)
            self.alg += [("-", ("v", q), e) for q, e in zip(us, es)]
            if self.yg is not None:
                self.yg.update({q: self.ug[q] if self.ug is not None else 0.0 for q in us})
            self.vec["y"] += us
            d.label("connect")
        self.drop_u(us)
        d.interesting(self.many())

    def substitute(self, mp):
        s = lambda e: gen.subst(e, mp)
        for a in ("h_initial", "h_final", "h", "alg"):
            setattr(self, a, [s(e) for e in getattr(self, a)])
        for a in ("g_eq", "g_ineq"):
            setattr(self, a, [(s(e), w) for e, w in getattr(self, a)])
        for a in "LVS":
            setattr(self, a, s(getattr(self, a)))
        self.ode = {q: s(e) for q, e in self.ode.items()}
        self.uexpr = {q: s(e) for q, e in self.uexpr.items()}

    def op_replace(self):
        d, o = self.d, self.o
        us = d.subset(d.perm(self.live() + ["t"])[:3], 1)
        es = self.exprs(len(us), depth=1)
        es = [gen.subst(e, {"t": ("c", 0.5), "tau": ("c", 0.25)}) for e in es]
        a, b = [self.sx[q] for q in us], self.tosx(es)
        if d.bool():
            a, b = ca.vertcat(*a), ca.vertcat(*b)
        o.replace_variable(a, b)
        self.substitute(dict(zip(us, es)))
        d.interesting(self.many() or len(self.vec["x"]) > 1)
        d.label("replace")

    def op_parametrize(self):
        d, o = self.d, self.o
        free = [u for u in self.vec["u"] if u not in self.par]
        if not free:
            return
        us = d.subset(free, 1)
        n = d.int(0, 2)
        new = ca.SX.sym("w%d" % self.n, n) if n else None
        nu = self.reg(new) if n else []
        es = self.exprs(len(us), names=[q for q in self.live() if q not in us] + nu)
        o.parametrize_control(self.vsx(us), ca.vertcat(*self.tosx(es)), new)
        self.par += us
        self.upar = [q for q in self.upar if q not in us] + nu
        self.substitute(dict(zip(us, es)))
        d.interesting(len(self.vec["u"]) > 1)
        d.label("parametrize")

    def op_reject(self):
        d, o = self.d, self.o
        f = ca.SX.sym("foreign", 2)
        b1, b3 = ca.DM([1.0]), ca.DM([1.0, 2.0, 3.0])
        b = d.choice([b1, b3])
        x0 = ca.DM([0.0, 0.0])
        opts = [("x_min", lambda: o.include_state(f, x_0=x0, x_min=b)), ("x_max", lambda: o.include_state(f, x_0=x0, x_max=b)),
                ("x_0", lambda: o.include_state(f, x_0=b)), ("no initial condition", lambda: o.include_state(f)),
                ("y_min", lambda: o.include_algebraic(f, y_min=b)), ("y_max", lambda: o.include_algebraic(f, y_max=b)),
                ("u_min", lambda: o.include_control(f, u_min=b3, u_guess=x0)), ("u_max", lambda: o.include_control(f, u_max=b3, u_guess=x0)),
                ("delta_u_min", lambda: o.include_control(f, delta_u_min=b3, u_guess=x0)),
                ("delta_u_max", lambda: o.include_control(f, delta_u_max=b3, u_guess=x0)),
                ("u_guess size", lambda: o.include_control(f, u_guess=b)),
                ("p_opt_min", lambda: o.set_parameter_as_optimization_parameter(f, new_p_opt_min=b)),
                ("p_opt_max", lambda: o.set_parameter_as_optimization_parameter(f, new_p_opt_max=b)),
                ("theta_opt_min", lambda: o.set_theta_as_optimization_theta(f, new_theta_opt_min=b)),
                ("theta_opt_max", lambda: o.set_theta_as_optimization_theta(f, new_theta_opt_max=b)),
                ("replace size", lambda: o.replace_variable(f, ca.SX.sym("g", 3)))]
        if self.ug is not None:
            opts.append(("control without guess", lambda: o.include_control(f)))
        if self.vec["x"]:
            opts.append(("state twice", lambda: o.include_state(self.sx[self.vec["x"][0]], x_0=ca.DM(0))))
        if self.vec["u"]:
            opts.append(("connect size", lambda: o.connect(self.sx[self.vec["u"][0]], f)))
            opts.append(("remove unknown control", lambda: o.remove_control(f)))
        if self.vec["y"]:
            opts.append(("remove unknown algebraic", lambda: o.remove_algebraic(f)))
            opts.append(("y_guess", lambda: o.include_algebraic(f, y_guess=b)))
        nm, fn = d.choice(opts)
        d.label("reject")
        d.interesting(bool(self.live()))
        try:
            fn()
        except Exception:
            return
        raise Violation("a call that must be refused was accepted: " + nm)

    # ---- oracle
    def compare(self):
        o, m = self.o, self.o.model
        for k in KINDS:
            v = getattr(m, k)
            check(v.numel() == len(self.vec[k]) and all(ca.is_equal(v[i], self.sx[q]) for i, q in enumerate(self.vec[k])), "variables of the problem", kind=k, got=v,
                  expected=[self.name[q] for q in self.vec[k]])

        def vals(attr, us, src):
            got = gen.arr(ca.vertcat(getattr(o, attr))) if len(us) or ca.vertcat(getattr(o, attr)).numel() else np.zeros(0)
            exp = [src[q] for q in us]
            check(gen.close(got, np.array(exp, dtype=float), 1e-12), "%s is not aligned with the declarations" % attr, got=got, expected=exp, variables=[self.name[q] for q in us])

        for k in "xyu":
            vals(k + "_min", self.vec[k], self.lo)
            vals(k + "_max", self.vec[k], self.hi)
        vals("delta_u_min", self.vec["u"], self.dlo)
        vals("delta_u_max", self.vec["u"], self.dhi)
        vals("x_0", self.vec["x"], self.x0)
        for attr, src, us in (("u_guess", self.ug, self.vec["u"]), ("y_guess", self.yg, self.vec["y"]), ("last_u", self.last, self.vec["u"])):
            if src is None:
                check(getattr(o, attr) is None, "%s was never given" % attr, got=getattr(o, attr))
            elif us:
                vals(attr, us, src)
        for nm, us in (("p", self.popt), ("theta", self.thopt)):
            v = getattr(o, nm + "_opt")
            check(v.numel() == len(us) == getattr(o, "n_%s_opt" % nm) and all(ca.is_equal(v[i], self.sx[q]) for i, q in enumerate(us)), "optimization variables", got=v)
            vals(nm + "_opt_min", us, self.lo)
            vals(nm + "_opt_max", us, self.hi)
            check(getattr(o, "get_%s_opt_indices" % nm)() == [self.vec[nm].index(q) for q in us], "positions of the optimization parameters")
        check(o.has_delta_u == any(np.isfinite([self.dlo[q], self.dhi[q]]).any() for q in self.vec["u"]), "has_delta_u")
        check(list(o.time_g_eq) == [w for _, w in self.g_eq] and list(o.time_g_ineq) == [w for _, w in self.g_ineq], "instants of the constraints",
              got=(o.time_g_eq, o.time_g_ineq))
        check(o.n_h_initial == len(self.h_initial) and o.n_h_final == len(self.h_final) and o.n_g_eq == len(self.g_eq) and o.n_g_ineq == len(self.g_ineq),
              "number of constraints")
        keys = sorted(self.sx)
        syms = [self.sx[k] for k in keys]
        at = [gen.point(i, 0) for i in range(len(keys))]
        env = dict(zip(keys, at))
        for nm, ex, es, sign in (("h_initial", o.h_initial, self.h_initial, False), ("h_final", o.h_final, self.h_final, False), ("h", o.h, self.h, False),
                                 ("g_eq", o.g_eq, [e for e, _ in self.g_eq], False), ("g_ineq", o.g_ineq, [e for e, _ in self.g_ineq], True),
                                 ("L", o.L, [self.L], True), ("V", o.V, [self.V], True), ("S", o.S, [self.S], True),
                                 ("ode", m.ode, [self.ode[q] for q in self.vec["x"] if q in self.ode], True), ("alg", m.alg, self.alg, False),
                                 ("u_expr", m.u_expr, [self.uexpr[q] for q in self.vec["u"]], True)):
            got = gen.sx_eval(ca.SX(ex), syms, at)
            exp = np.array([gen.evalf(e, env) for e in es])
            if not sign:  # an equality is the same whichever side is subtracted
                got, exp = np.abs(got), np.abs(exp)
            check(gen.close(got, exp), "%s is not what was declared" % nm, got=ex, values=got, expected=exp)
        check(m.u_par.numel() == len(self.upar) and all(ca.is_equal(m.u_par[i], self.sx[q]) for i, q in enumerate(self.upar)), "control parameters", got=m.u_par)

    def presolve(self):
        d, o = self.d, self.o
        o.pre_solve_check()
        self.compare()
        at = d.choice(["x_0", "x_max", "x_min", "y_max", "y_min", "u_max", "u_min", "delta_u_max", "delta_u_min", "p_opt_max", "p_opt_min", "theta_opt_max",
                       "theta_opt_min", "L", "V", "S"])
        old = getattr(o, at)
        v = ca.vertcat(old)
        if at in "LVS":
            new = ca.vertcat(v, v)
        else:
            new = ca.vertcat(v, ca.DM(1.0)) if d.bool() or not v.numel() else v[: v.numel() - 1]
        setattr(o, at, new)
        try:
            o.pre_solve_check()
        except Exception:
            setattr(o, at, old)
            o.pre_solve_check()
            return
        raise Violation("pre_solve_check accepted a problem with an inconsistent %s" % at)


OPS = [(2, "op_state"), (2, "op_alg"), (3, "op_control"), (2, "op_par"), (2, "op_constraint"), (2, "op_cost"), (1, "op_equations"), (2, "op_remove"), (2, "op_connect"),
       (2, "op_replace"), (1, "op_parametrize"), (2, "op_reject")]


def history(d):
    warnings.simplefilter("ignore")
    h = Hist(d)
    h.compare()
    for _ in range(d.int(1, 12)):
        op = d.weighted(OPS)
        d.note(op)
        getattr(h, op)()
        h.compare()
    h.presolve()
    check(h.sig_model() == h.m0_sig, "editing the problem changed the user's model", before=h.m0_sig, after=h.sig_model())


FAMILIES = [Family("history", history, 4500, 50000, shards=8, tshards=8)]
