"""C01: a model is exactly what its history of declarations says (reference-model histories)"""
import re
import warnings

import casadi as ca
import gen
from core import Family, Violation, check
from yaocptool.modelling import SystemModel
from yaocptool.modelling.utils import der

RULE = ("random histories (create/include/remove/replace/equation/parametrize/rejected calls) against an ordered-list reference "
        "model compared after every call; a case is non-trivial when a removal, replacement, parametrization or rejected call "
        "happened after equations existed, or sparse / vector-valued equations were used")

KINDS = ["x", "y", "u", "p", "theta"]
NAMES = ["a", "b", "q", "q1", "q10", "zz", "h_1", "h_10", "mod_q"]


class Ref:
    def __init__(self):
        self.vec = {k: [] for k in KINDS}  # uids, insertion order
        self.x0 = {}
        self.ode = {}
        self.alg = []
        self.uexpr = {}
        self.upar = []
        self.parametrized = []

    def clone(self):
        c = Ref()
        c.vec = {k: list(v) for k, v in self.vec.items()}
        c.x0, c.ode, c.alg = dict(self.x0), dict(self.ode), list(self.alg)
        c.uexpr, c.upar, c.parametrized = dict(self.uexpr), list(self.upar), list(self.parametrized)
        return c


class Hist:
    """drives one SystemModel and its reference"""

    def __init__(self, d, prefix=False):
        self.d = d
        self.prefix = prefix
        self.m = SystemModel(name="mod", model_name_as_prefix=prefix)
        self.r = Ref()
        self.sx = {"t": self.m.t, "tau": self.m.tau}
        self.name = {}
        self.counter = [0]

    def clone(self, model, sx=None, x0=None):
        """the same history so far, continued on another model object"""
        h = Hist.__new__(Hist)
        h.d, h.prefix, h.m, h.counter = self.d, self.prefix, model, self.counter
        h.r = self.r.clone()
        h.sx = dict(self.sx) if sx is None else sx
        h.name = dict(self.name)
        if x0 is not None:
            h.r.x0 = dict(zip(h.r.vec["x"], x0))
        return h

    # -- helpers
    def reg(self, kind, sxs, names):
        uids = []
        for s, nm in zip(sxs, names):
            uid = "v%d" % self.counter[0]
            self.counter[0] += 1
            self.sx[uid] = s
            self.name[uid] = nm
            uids.append(uid)
        return uids

    def live(self, *kinds):
        return [v for k in kinds for v in self.r.vec[k]]

    def all_live(self):
        return self.live(*KINDS)

    def exprs(self, n, depth=2):
        return [gen.expr(self.d, self.all_live(), depth, "t") for _ in range(n)]

    def vsx(self, uids):
        return ca.vertcat(*[self.sx[u] for u in uids])

    # -- operations
    def op_create(self):
        d, m, r = self.d, self.m, self.r
        kind = d.choice(KINDS)
        name = d.choice(NAMES)
        size = d.choice([1, 1, 2, 3, (1, 1), (2, 2), (2, 1), (1, 2)])
        numel = size if isinstance(size, int) else size[0] * size[1]
        how = d.int(0, 3)
        if how < 3:
            fn = {"x": m.create_state, "y": m.create_algebraic_variable, "u": d.choice([m.create_control, m.create_input]),
                  "p": m.create_parameter, "theta": m.create_theta}[kind]
            var = fn(name, size)
            check(var.numel() == numel and var.shape == ((size, 1) if isinstance(size, int) else size),
                  "create returned a variable of the wrong shape", shape=var.shape, size=size)
            sxs = [s for s in ca.vec(var).nz]
            full = ("mod_" if self.prefix else "") + name
            check(all(s.name().startswith(full) for s in sxs), "created variable has a wrong name", names=[s.name() for s in sxs], full=full)
            uids = self.reg(kind, sxs, [s.name() for s in sxs])
            if kind == "x":
                x0 = [s for s in m.x_0.nz][-numel:]
        else:
            v = ca.SX.sym(name, numel)
            sxs = [s for s in v.nz]
            uids = self.reg(kind, sxs, [s.name() for s in sxs])
            if kind == "x":
                ode = None
                es = None
                own = None
                if d.bool():
                    es = self.exprs(numel)
                    ode = ca.vertcat(*[gen.to_sx(e, self.sx) for e in es])
                if d.bool():
                    own = ca.SX.sym(name + "_ini", numel)
                ret = m.include_state(v, ode=ode, x_0=own)
                check(ret.numel() == numel, "include_state returned an initial condition of the wrong size")
                if own is not None:
                    check(ca.is_equal(ret, own), "include_state did not use the given initial-condition symbols")
                x0 = [s for s in ret.nz]
                if es:
                    for u_, e in zip(uids, es):
                        r.ode[u_] = e
            elif kind == "y":
                if d.bool():
                    es = self.exprs(numel)
                    m.include_algebraic(v, ca.vertcat(*[gen.to_sx(e, self.sx) for e in es]))
                    r.alg += es
                else:
                    m.include_variables(y=d.choice([v, [v]]))
            elif kind == "u":
                m.include_control(v) if d.bool() else m.include_variables(u=[v])
            elif kind == "p":
                m.include_parameter(v) if d.bool() else m.include_variables(p=v)
            else:
                m.include_theta(v) if d.bool() else m.include_variables(theta=[v])
        r.vec[kind] += uids
        if kind == "x":
            for u_, s in zip(uids, x0):
                r.x0[u_] = s
        if kind == "u":
            for u_ in uids:
                r.uexpr[u_] = ("v", u_)
                r.upar.append(u_)
        d.label("create_" + kind)

    def op_ode(self):
        d, m, r = self.d, self.m, self.r
        if not r.vec["x"]:
            return
        how = d.int(0, 4)
        if how == 0 and not r.ode:
            n = d.int(1, len(r.vec["x"]))
            uids = r.vec["x"][:n]
        else:
            how = max(how, 1)
            uids = d.subset(d.perm(r.vec["x"]) if d.bool() else r.vec["x"], 1)
        es = self.exprs(len(uids))
        sxs = [gen.to_sx(e, self.sx) for e in es]
        if how == 4:  # linear, sparse right-hand side: rows that do not appear are structurally zero
            d.label("sparse_ode")
            d.interesting(len(uids) > 1)
            cols = self.all_live()
            a = ca.DM(len(uids), len(cols))
            es = []
            for i in range(len(uids)):
                e = ("c", 0.0)
                for j in range(len(cols)):
                    if d.int(0, 3) == 0:
                        v = d.nonzero(-2, 2, 0.5)
                        a[i, j] = v
                        e = ("+", e, ("*", ("c", v), ("v", cols[j])))
                es.append(e)
            rhs = ca.mtimes(a, self.vsx(cols))
            if d.bool():
                m.include_equations(ode=rhs, x=self.vsx(uids))
            else:
                m.include_equations(der(self.vsx(uids)) == rhs)
        elif how == 0:
            m.include_equations(ode=d.choice([sxs, ca.vertcat(*sxs)]))
        elif how == 1:
            m.include_equations(ode=sxs, x=[self.sx[u_] for u_ in uids])
        elif how == 2:
            m.include_equations(*[der(self.sx[u_]) == s for u_, s in zip(uids, sxs)])
        else:
            m.include_equations(ode=ca.vertcat(*sxs), x=self.vsx(uids))
        for u_, e in zip(uids, es):
            r.ode[u_] = e
        d.label("ode")

    def op_both(self):
        """one call with differential and algebraic equations"""
        d, m, r = self.d, self.m, self.r
        if not r.vec["x"]:
            return
        uids = d.subset(r.vec["x"], 1)
        es, ea = self.exprs(len(uids)), self.exprs(d.int(1, 2))
        m.include_equations(ode=[gen.to_sx(e, self.sx) for e in es], x=[self.sx[u_] for u_ in uids], alg=[gen.to_sx(e, self.sx) for e in ea])
        for u_, e in zip(uids, es):
            r.ode[u_] = e
        r.alg += ea
        d.label("ode+alg")

    def op_alg(self):
        d, m, r = self.d, self.m, self.r
        n = d.int(1, 2)
        es = self.exprs(n)
        how = d.int(0, 3)
        if how == 0:
            m.include_equations(alg=[gen.to_sx(e, self.sx) for e in es])
            r.alg += es
        elif how == 1:
            m.include_equations(alg=ca.vertcat(*[gen.to_sx(e, self.sx) for e in es]))
            r.alg += es
        elif r.vec["y"]:
            y = d.choice(r.vec["y"])
            e = ("+", es[0], ("v", d.choice(self.all_live())))
            if (self.sx[y] == gen.to_sx(e, self.sx)).op() != ca.OP_EQ:
                return  # casadi folded a trivial equality (y == y)
            if d.bool() or not r.vec["x"]:
                m.include_equations(self.sx[y] == gen.to_sx(e, self.sx))
                r.alg.append(("abs", ("-", ("v", y), e)))
            else:  # mixed call, differential and algebraic equations together
                x = d.choice(r.vec["x"])
                m.include_equations(self.sx[y] == gen.to_sx(e, self.sx), der(self.sx[x]) == gen.to_sx(es[-1], self.sx))
                r.alg.append(("abs", ("-", ("v", y), e)))
                r.ode[x] = es[-1]
        d.label("alg")

    def op_remove(self):
        d, m, r = self.d, self.m, self.r
        kinds = [k for k in KINDS if (r.vec[k] if k != "u" else [u for u in r.vec["u"] if u not in r.parametrized])]
        if not kinds:
            return
        k = d.choice(kinds)
        pool = r.vec[k] if k != "u" else [u for u in r.vec["u"] if u not in r.parametrized]
        uids = d.subset(pool, 1)[:2]
        v = self.vsx(d.perm(uids))
        d.interesting(bool(r.ode or r.alg))
        d.label("remove_" + k)
        if k == "x":
            m.remove_state(v)
            for u_ in uids:
                r.ode.pop(u_, None)
                r.x0.pop(u_)
        elif k == "y":
            if len(uids) == 1 and r.alg and d.bool():
                i = d.int(0, len(r.alg) - 1)
                node = m.alg[i]
                same = [j for j in range(m.alg.numel()) if ca.is_equal(m.alg[j], node, 0)]
                m.remove_algebraic(v, node)
                r.alg = [e for j, e in enumerate(r.alg) if j not in same]
            else:
                m.remove_algebraic(v)
        elif k == "u":
            m.remove_control(v)
            for u_ in uids:
                r.uexpr.pop(u_)
            r.upar = [u_ for u_ in r.upar if u_ not in uids]
        elif k == "p":
            m.remove_parameter(v)
        else:
            m.remove_theta(v)
        r.vec[k] = [u_ for u_ in r.vec[k] if u_ not in uids]

    def op_replace(self):
        d, m, r = self.d, self.m, self.r
        pool = self.all_live() + ["t"]
        uids = d.subset(d.perm(pool)[:3], 1)
        mp = {}
        reps = []
        for u_ in uids:
            e = gen.expr(d, self.all_live(), 1)
            mp[u_] = e
            reps.append(gen.to_sx(e, self.sx))
        m.replace_variable(self.vsx(uids), ca.vertcat(*reps))
        d.interesting(bool(r.ode or r.alg))
        d.label("replace")
        self.ref_subst(mp)

    def ref_subst(self, mp):
        r = self.r
        r.ode = {k: gen.subst(e, mp) for k, e in r.ode.items()}
        r.alg = [("abs", gen.subst(e[1], mp)) if e[0] == "abs" else gen.subst(e, mp) for e in r.alg]
        r.uexpr = {k: gen.subst(e, mp) for k, e in r.uexpr.items()}

    def op_parametrize(self):
        d, m, r = self.d, self.m, self.r
        pool = [u for u in r.vec["u"] if u not in r.parametrized]
        if not pool:
            return
        uids = d.subset(pool, 1)
        n_new = d.int(0, 2)
        new = ca.SX.sym("par%d" % self.counter[0], n_new) if n_new else None
        new_uids = self.reg("par", [s for s in new.nz], [s.name() for s in new.nz]) if n_new else []
        names = [v for v in self.all_live() if v not in uids] + new_uids
        es = [gen.expr(d, names, 2, "t") for _ in uids]
        m.parametrize_control(self.vsx(uids), ca.vertcat(*[gen.to_sx(e, self.sx) for e in es]), new)
        r.parametrized += uids
        r.upar = [u for u in r.upar if u not in uids] + new_uids
        self.ref_subst(dict(zip(uids, es)))
        d.interesting(bool(r.ode or r.alg))
        d.label("parametrize")

    def op_reject(self):
        d, m, r = self.d, self.m, self.r
        foreign = ca.SX.sym("foreign")
        opts = []
        if r.vec["x"]:
            x = self.sx[r.vec["x"][0]]
            xs = self.vsx(r.vec["x"])
            opts += [("state twice", lambda: m.include_state(x)),
                     ("new state together with an existing one", lambda: m.include_state(ca.vertcat(foreign, x))),
                     ("ode size", lambda: m.include_equations(ode=ca.vertcat(xs, foreign), x=xs)),
                     ("replace size", lambda: m.replace_variable(x, ca.vertcat(x, foreign)))]
        for k, fn in (("x", m.remove_state), ("y", m.remove_algebraic), ("u", m.remove_control), ("p", m.remove_parameter),
                      ("theta", m.remove_theta)):
            if r.vec[k]:
                opts.append(("remove unknown " + k, lambda fn=fn: fn(foreign)))
        if r.vec["u"]:
            u = self.sx[r.vec["u"][0]]
            opts.append(("parametrize size", lambda: m.parametrize_control(u, ca.vertcat(foreign, foreign))))
            if r.parametrized:
                up = self.sx[r.parametrized[0]]
                opts.append(("parametrize twice", lambda: m.parametrize_control(up, foreign)))
        if not opts:
            return
        nm, fn = d.choice(opts)
        d.label("reject")
        d.interesting(bool(r.ode or r.alg))
        try:
            fn()
        except Exception:
            return
        raise Violation("a call that must be refused was accepted: " + nm)

    # -- oracle
    def compare(self):
        m, r = self.m, self.r
        for k in KINDS:
            v = getattr(m, k)
            check(v.numel() == len(r.vec[k]) == getattr(m, "n_" + k), "number of variables", kind=k, got=v, expected=[self.name[u] for u in r.vec[k]])
            for i, u_ in enumerate(r.vec[k]):
                check(ca.is_equal(v[i], self.sx[u_]), "variable vector differs from the declaration history", kind=k, got=v,
                      expected=[self.name[u] for u in r.vec[k]])
            check(getattr(m, k + "_names") == [self.name[u] for u in r.vec[k]], "names", kind=k)
        check(m.x_0.numel() == len(r.vec["x"]), "one initial-condition symbol per state", got=m.x_0, states=m.x)
        for i, u_ in enumerate(r.vec["x"]):
            check(ca.is_equal(m.x_0[i], r.x0[u_]), "initial-condition symbols not aligned with the states", got=m.x_0, states=m.x)
        check(m.n_u_par == m.u_par.numel() == len(r.upar), "control parameters", got=m.u_par, expected=[self.name[u] for u in r.upar])
        for i, u_ in enumerate(r.upar):
            check(ca.is_equal(m.u_par[i], self.sx[u_]), "control parameters", got=m.u_par, expected=[self.name[u] for u in r.upar])
        check(m.system_type == ("dae" if r.vec["y"] else "ode"), "system_type")
        check(m.is_parametrized() == bool(r.parametrized), "is_parametrized")
        for u_ in r.vec["u"]:
            check(m.control_is_parametrized(self.sx[u_]) == (u_ in r.parametrized), "control_is_parametrized")
        # every symbol that ever existed gets a value
        keys = sorted(self.sx)
        syms = [self.sx[k] for k in keys]
        for k in range(2):
            vals = [gen.point(i, k) for i in range(len(keys))]
            env = dict(zip(keys, vals))

            def ev(e):
                return abs(gen.evalf(e[1], env)) if e[0] == "abs" else gen.evalf(e, env)

            exp = [ev(r.ode[u_]) for u_ in r.vec["x"] if u_ in r.ode]
            got = gen.sx_eval(m.ode, syms, vals)
            check(gen.close(got, exp), "state equations differ from what was declared", got=m.ode, values=got, expected=exp)
            exp = [ev(e) for e in r.alg]
            got = gen.sx_eval(m.alg, syms, vals)
            got = [abs(g) if e[0] == "abs" else g for g, e in zip(got, r.alg)] + list(got[len(r.alg):])
            check(gen.close(got, exp), "algebraic equations differ from what was declared", got=m.alg, values=got, expected=exp)
            exp = [ev(r.uexpr[u_]) for u_ in r.vec["u"]]
            got = gen.sx_eval(m.u_expr, syms, vals)
            check(gen.close(got, exp), "control expressions differ from what was declared", got=m.u_expr, values=got, expected=exp)

    def compare_lookup(self):
        d, m, r = self.d, self.m, self.r
        for u_, s in self.sx.items():
            if u_ in ("t", "tau"):
                continue
            check(m.has_variable(s) == (u_ in self.all_live() or u_ in r.upar), "has_variable", name=self.name[u_])
        names = d.subset(["a", "q.*", "q1", "mod_q", "h_1", "zz$", ".*_0$", "b"], 1)
        kinds = d.choice([None, "x", "y", "u", ["x", "p"], "theta"])
        ks = KINDS if kinds is None else kinds if isinstance(kinds, list) else [kinds]
        exp = [u_ for k in ks for n in names for u_ in r.vec[k] if re.match(n, self.name[u_])]
        got = m.get_variables_by_names(names if d.bool() or len(names) > 1 else names[0], kinds)
        check(len(got) == len(exp) and all(ca.is_equal(g, self.sx[e]) for g, e in zip(got, exp)), "lookup by name", names=names, kinds=kinds,
              got=got, expected=[self.name[e] for e in exp])
        one = [u_ for k in ks for u_ in r.vec[k] if re.match(names[0], self.name[u_])]
        try:
            v = m.get_variable_by_name(names[0], kinds)
            check(len(one) == 1 and ca.is_equal(v, self.sx[one[0]]), "get_variable_by_name must return the only match", name=names[0], got=v)
        except ValueError:
            check(len(one) != 1, "get_variable_by_name refused a unique name", name=names[0])

    def compare_dae(self):
        m, r = self.m, self.r
        s = m.get_dae_system()
        check(ca.is_equal(s.x, m.x) and s.ode.shape == m.ode.shape and s.is_dae == (m.n_y > 0 and m.alg.numel() > 0), "dae system")
        keys = sorted(self.sx)
        syms, vals = [self.sx[k] for k in keys], [gen.point(i, 1) for i in range(len(keys))]
        for a in ("ode", "alg") if m.n_y else ("ode",):
            e1, e2 = getattr(s, a), getattr(m, a)
            check(e1.numel() == e2.numel() and gen.close(gen.sx_eval(e1, syms, vals), gen.sx_eval(e2, syms, vals)), "equations of the dae system are not the model's", got=e1, expected=e2)
        exp = r.vec["p"] + r.vec["theta"] + r.upar
        check(s.p.numel() == len(exp) and all(ca.is_equal(s.p[i], self.sx[e]) for i, e in enumerate(exp)),
              "parameters of the dae system are not [p; theta; u_par]", got=s.p)


OPS = [(4, "op_create"), (3, "op_ode"), (2, "op_alg"), (1, "op_both"), (2, "op_remove"), (2, "op_replace"), (1, "op_parametrize"), (2, "op_reject")]


def history(d):
    warnings.simplefilter("ignore")
    h = Hist(d, prefix=d.bool())
    ops = ["op_create"] * d.int(1, 6) + ["op_ode"] * d.int(0, 2) + ["op_alg"] * d.int(0, 2)
    n = d.int(1, 12)
    for i in range(len(ops) + n):
        op = ops[i] if i < len(ops) else d.weighted(OPS)
        getattr(h, op)()
        d.note(op)
        h.compare()
        if d.int(0, 3) == 0:
            h.compare_dae()
    h.compare_lookup()
    h.compare_dae()


FAMILIES = [Family("history", history, 6000, 60000, shards=8, tshards=8)]
