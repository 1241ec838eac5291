"""C14: composing models and problems preserves each part"""
import warnings

import casadi as ca
import gen
import numpy as np
import ocpgen
from core import Family, Violation, check, raises
from scipy.integrate import solve_ivp
from yaocptool.methods import DirectMethod
from yaocptool.modelling import OptimalControlProblem, SystemModel
from yaocptool.modelling.network.network import Network
from yaocptool.modelling.network.node import Node

from props.c13 import KINDS, OPS, Hist

RULE = ("2-3 random problems (each from a random editing history) merged into a fresh or existing problem or composed by a random network and edited further, compared "
        "with the concatenated per-variable reference; random DAE systems composed with random (acyclic) connections, intermediary nodes and parametrized controls, "
        "simulated and compared with an independent simulation of the coupled equations; linear-quadratic problems merged and solved, compared with the sum of the "
        "parts' optima. Non-trivial: every case (at least two parts) except those whose parts have no variables")


# ------------------------------------------------------------------ problems
def part_histories(d, lo=2, hi=3, **kw):
    hs = []
    for k in range(d.int(lo, hi)):
        h = Hist(d, start=1000 * (k + 1), **kw)
        for _ in range(d.int(0, 4)):
            op = d.weighted([w for w in OPS if w[1] != "op_reject"])
            d.note("part%d %s" % (k, op))
            getattr(h, op)()
        xs = [q for q in h.vec["x"] if q not in h.ode]
        if xs:  # a complete model: every state has its equation
            es = h.exprs(len(xs))
            h.o.model.include_equations(ode=h.tosx(es), x=[h.sx[q] for q in xs])
            h.ode.update(zip(xs, es))
        hs.append(h)
    return hs


def combine(d, target, parts):
    """reference of `target` (a problem) made of the histories in parts, in order"""
    h = Hist.__new__(Hist)
    h.d, h.n, h.o = d, 9000, target
    h.sx, h.name, h.vec = {}, {}, {k: [] for k in KINDS}
    for a in ("lo", "hi", "dlo", "dhi", "x0", "ode", "uexpr"):
        setattr(h, a, {})
    for a in ("popt", "thopt", "h_initial", "h_final", "h", "g_eq", "g_ineq", "alg", "upar", "par"):
        setattr(h, a, [])
    h.L = h.V = h.S = ("c", 0.0)
    h.positive = False
    for q in parts:
        h.sx.update(q.sx)
        h.name.update(q.name)
        for k in KINDS:
            h.vec[k] = h.vec[k] + q.vec[k]
        for a in ("lo", "hi", "dlo", "dhi", "x0", "ode", "uexpr"):
            getattr(h, a).update(getattr(q, a))
        for a in ("popt", "thopt", "h_initial", "h_final", "h", "g_eq", "g_ineq", "alg", "upar", "par"):
            setattr(h, a, getattr(h, a) + getattr(q, a))
        for a in "LVS":
            setattr(h, a, ("+", getattr(h, a), getattr(q, a)))
    for a, k in (("ug", "u"), ("yg", "y"), ("last", "u")):
        have = [q for q in parts if q.vec[k]]
        if not have:
            attr = {"ug": "u_guess", "yg": "y_guess", "last": "last_u"}[a]
            setattr(h, a, None if getattr(target, attr, None) is None else {})
        elif all(getattr(q, a) is not None for q in have):
            setattr(h, a, {v: g for q in have for v, g in getattr(q, a).items()})
        else:
            setattr(h, a, None)
    h.sx["t"], h.sx["tau"] = target.model.t, target.model.tau
    return h


def problems(d):
    warnings.simplefilter("ignore")
    ts = d.choice([{}, {"t_0": 1.0, "t_f": 3.0}])
    hs = part_histories(d, **ts)
    into = d.bool()
    d.interesting(all(h.live() for h in hs))
    if into:
        target, rest = hs[0].o, hs[1:]
        d.label("into an existing problem")
    else:
        target, rest = OptimalControlProblem(SystemModel(name="all"), name="all", **ts), hs
    own_positive = target.positive_objective
    if d.int(0, 3) == 0:
        bad = d.choice(rest)
        at = d.choice(["t_0", "t_f"])
        old = getattr(bad.o, at)
        setattr(bad.o, at, old + 0.5)
        check(raises(lambda: target.merge([bad.o]), ValueError), "problems with different time intervals were merged", attribute=at)
        setattr(bad.o, at, old)
        d.label("refused")
        if into:
            hs[0].compare()
    arg = [h.o for h in rest]
    target.merge(arg if d.bool() else tuple(arg))
    m = combine(d, target, ([hs[0]] if into else []) + rest)
    m.positive = own_positive and all(h.positive for h in rest)
    m.compare()
    check(bool(target.positive_objective) == bool(m.positive), "positive_objective of the merged problem")
    for h in rest:
        h.compare()
    for _ in range(d.int(0, 4)):
        op = d.weighted(OPS)
        d.note("merged " + op)
        getattr(m, op)()
        m.compare()
    for h in rest:
        h.compare()
    m.presolve()


# ------------------------------------------------------------------ networks (structure)
def network(d):
    warnings.simplefilter("ignore")
    ts = d.choice([{}, {"t_0": 1.0, "t_f": 3.0}])
    hs = part_histories(d, lo=2, hi=4, min_u=d.int(0, 1), min_y=d.int(0, 1), **ts)
    net = Network(name="net")
    nodes = []
    how = d.int(0, 2)
    for k, h in enumerate(hs):
        nm = "node%d" % k
        kw = dict(name=nm, problem=h.o)
        if d.bool():
            kw["model"] = h.o.model
        if how == 0:
            nodes.append(net.create_node(**kw))
        else:
            nodes.append(Node(**kw))
            if how == 1:
                net.include_nodes(nodes[-1])
    if how == 2:
        net.include_nodes(list(nodes))
    ids = [n.node_id for n in nodes]
    check(len(set(ids)) == len(ids), "node ids are not unique", ids=ids)
    for n in nodes:
        check(net[n.node_id] is n and net[n.name] is n and net.get_node_by_id(n.node_id) is n and net.get_node_by_name(n.name) is n, "node lookup")
        check(n.model is n.problem.model, "model of a node made from a problem")
    check(raises(lambda: net[len(nodes)], IndexError) and raises(lambda: net["nobody"], KeyError), "lookup of a node that is not there")
    check(net.problems == [n.problem for n in sorted(nodes, key=lambda n: n.node_id)], "problems of the network")
    edges = {}
    used = set()
    for _ in range(d.int(0, 4)):
        i, j = d.int(0, len(hs) - 1), d.int(0, len(hs) - 1)
        ys = hs[i].vec["y"]
        us = [u for u in hs[j].vec["u"] if u not in used and u not in hs[j].par]
        if i == j or not ys or not us:
            continue
        us = d.subset(us, 1)[: len(ys)]
        ys = d.perm(ys)[: len(us)]
        net.connect(y=hs[i].vsx(ys), u=hs[j].vsx(us), node1=nodes[i], node2=nodes[j])
        used.update(us)
        e = edges.setdefault((i, j), [])
        e += list(zip(us, ys))
        d.label("connection")
        if len(e) > len(us):
            d.label("two connections between the same nodes")
    d.interesting(bool(edges))
    foreign = ca.SX.sym("foreign")
    if hs[0].vec["y"] and hs[1].vec["u"]:
        check(raises(lambda: net.connect(y=foreign, u=hs[1].sx[hs[1].vec["u"][0]], node1=nodes[0], node2=nodes[1]), ValueError)
              and raises(lambda: net.connect(y=hs[0].sx[hs[0].vec["y"][0]], u=foreign, node1=nodes[0], node2=nodes[1]), ValueError), "connection of unknown variables")
    if edges and d.int(0, 3) == 0:
        (i, j) = d.choice(sorted(edges))
        net.remove_connection(nodes[i], nodes[j])
        del edges[i, j]
        d.label("removed connection")
    check({(nodes.index(a), nodes.index(b)) for a, b in net.connections} == set(edges) and set(net.nodes) == set(nodes), "graph of the network")
    groups = net.get_map_coloring_groups()
    check(sorted(n.node_id for g in groups for n in g) == sorted(ids), "coloring does not contain every node once")
    for g in groups:
        for a in g:
            for b in g:
                check((nodes.index(a), nodes.index(b)) not in edges, "adjacent nodes in one group")
    order = sorted(range(len(hs)), key=lambda k: nodes[k].node_id)
    for what in ("problem", "model"):
        if what == "problem":
            p = net.get_problem()
            check(p.t_0 == ts.get("t_0", 0.0) and p.t_f == ts.get("t_f", 1.0), "time interval of the composed problem", got=(p.t_0, p.t_f))
            model = p.model
        else:
            p = None
            model = net.get_model()
            ref = combine(d, Fake(model), [hs[k] for k in order])
        if what == "problem":
            ref = combine(d, p, [hs[k] for k in order])
        pairs = [c for e in edges.values() for c in e]
        us = [u for u, _ in pairs]
        ref.alg = ref.alg + [("-", ("v", u), ("v", y)) for u, y in pairs]
        if ref.yg is not None:
            ref.yg.update({q: ref.ug[q] if ref.ug is not None else 0.0 for q in us})
        ref.vec["y"] = ref.vec["y"] + us
        ref.drop_u(us)
        # the order in which connections are added to the algebraic variables is not specified
        pos = {}
        for q in ref.vec["y"]:
            at = [i for i in range(model.y.numel()) if ca.is_equal(model.y[i], ref.sx[q])]
            check(len(at) == 1, "algebraic variables of the composition", variable=ref.name[q], got=model.y)
            pos[q] = at[0]
        ref.vec["y"].sort(key=lambda q: pos[q])
        got = model.alg
        keys = sorted(ref.sx)
        vals = [gen.point(i, 0) for i in range(len(keys))]
        env = dict(zip(keys, vals))
        val = np.abs(gen.sx_eval(got, [ref.sx[k] for k in keys], vals))
        exp = np.abs(np.array([gen.evalf(e, env) for e in ref.alg]))
        check(gen.close(np.sort(val), np.sort(exp)), "algebraic equations of the composition", got=got, values=val, expected=exp)
        if what == "problem":
            ref.alg = reorder(ref.alg, exp, val)
            ref.compare()
        else:
            for k in KINDS:
                v = getattr(model, k)
                check(v.numel() == len(ref.vec[k]) and all(ca.is_equal(v[i], ref.sx[q]) for i, q in enumerate(ref.vec[k])), "variables of the composed model", kind=k, got=v)
            e1 = np.array([gen.evalf(ref.ode[q], env) for q in ref.vec["x"] if q in ref.ode])
            check(gen.close(gen.sx_eval(model.ode, [ref.sx[k] for k in keys], vals), e1), "differential equations of the composed model", got=model.ode)
    for h in hs:
        h.compare()
    d.note(str(sorted(edges)))


class Fake:
    def __init__(self, model):
        self.model = model


def reorder(es, exp, val):
    out, left = [], list(range(len(es)))
    for v in val:
        k = min(left, key=lambda i: abs(exp[i] - v))
        left.remove(k)
        out.append(es[k])
    return out


# ------------------------------------------------------------------ trajectories
def trajectory(d):
    """coupled simulation: node j may use outputs of nodes < j"""
    n = d.int(2, 3)
    sys_ = [gen.Sys(d, max_x=2, max_y=2, max_u=2, max_p=1, max_th=1, min_y=d.weighted([(3, 1), (1, 0)]), min_u=d.weighted([(3, 1), (1, 0)]),
                    nonlin=d.bool()) for _ in range(n)]
    built = [s.build("m%d" % k, "n%d_" % k if d.bool() else "") for k, s in enumerate(sys_)]
    conn = {}  # (j, b) -> (i, a)
    for j in range(1, n):
        for b in range(sys_[j].n["u"]):
            i = d.int(0, j - 1)
            if sys_[i].n["y"] and d.int(0, 3) != 3:
                conn[j, b] = (i, d.int(0, sys_[i].n["y"] - 1))
    d.interesting()
    d.label("connections=%d" % min(len(conn), 3))
    par = {}  # parametrized control: u = gain * x_0 + constant parameter
    for k, (m, s) in enumerate(built):
        for b in range(sys_[k].n["u"]):
            if (k, b) not in conn and d.int(0, 3) == 0:
                w = ca.SX.sym("w%d_%d" % (k, b))
                g = d.num(-0.5, 0.5)
                m.parametrize_control(s["u"][b], g * s["x"][0] + w * ca.sin(m.t), w)
                par[k, b] = g
                d.label("parametrized part")
    t0 = d.choice([0.0, 1.0])
    ts = [t0 + 0.5 * (k + 1) for k in range(d.int(1, 2))]
    mode = d.choice(["include", "merge", "network", "network problem", "intermediary", "intermediary later"])
    if par and mode in ("network problem",):
        mode = "network"
    d.label(mode)
    before = [sig(m) for m, _ in built]
    if mode in ("include", "merge"):
        big = SystemModel(name="big")
        models = [m for m, _ in built]
        if mode == "merge":
            eqs = [built[j][1]["u"][b] - built[i][1]["y"][a] for (j, b), (i, a) in conn.items()]
            if eqs:
                big.merge(models, connecting_equations=ca.vertcat(*eqs))
                for j, b in conn:
                    big.include_algebraic(built[j][1]["u"][b])
                    big.remove_control(built[j][1]["u"][b])
            else:
                big.merge(models if d.bool() else models[0])
                if big.n_x < sum(s.n["x"] for s in sys_):
                    big.merge(models[1:])
        else:
            if d.bool():
                big.include_models(models)
            else:
                for m in models:
                    big.include_models(m)
            for (j, b), (i, a) in conn.items():
                big.connect(built[j][1]["u"][b], built[i][1]["y"][a], replace=d.bool())
    else:
        net = Network(name="net", intermediary_nodes=mode == "intermediary")
        probs = [OptimalControlProblem(m, name="p%d" % k, t_0=t0, t_f=ts[-1], x_0=ca.DM.zeros(m.n_x)) for k, (m, _) in enumerate(built)]
        nodes = [net.create_node(name="node%d" % k, model=p.model, problem=p) for k, p in enumerate(probs)]
        for (j, b), (i, a) in conn.items():
            net.connect(y=built[i][1]["y"][a], u=built[j][1]["u"][b], node1=nodes[i], node2=nodes[j])
        if mode == "intermediary later":
            net.insert_intermediary_nodes()
        if mode.startswith("intermediary"):
            check(set(nodes) <= set(net.nodes), "a node was lost")
            check(all(q.problem.t_0 == t0 and q.problem.t_f == ts[-1] for q in net.nodes), "time interval of the intermediary nodes")
        big = net.get_problem().model if mode == "network problem" or (mode.startswith("inter") and d.bool() and not par) else net.get_model()
    check([sig(m) for m, _ in built] == before, "composing changed a part")
    check(big.is_parametrized() == bool(par), "is_parametrized of the composition", parametrized=sorted(par))
    for k, (m, s) in enumerate(built):
        for b in range(sys_[k].n["u"]):
            if (k, b) not in conn:
                check(big.control_is_parametrized(s["u"][b]) == ((k, b) in par), "control_is_parametrized of the composition", part=k, control=b)
    # values
    x0 = [s.vals(d, "x") for s in sys_]
    P = [s.vals(d, "p") for s in sys_]
    TH = [[s.vals(d, "theta") for s in sys_] for _ in ts]
    U = [[s.vals(d, "u") for s in sys_] for _ in ts]

    def lookup(vec, val):
        out = []
        for i in range(vec.numel()):
            hit = [v for s_, v in val if ca.is_equal(s_, vec[i])]
            check(len(hit) == 1, "unexpected variable in the composition", variable=vec[i])
            out.append(hit[0])
        return out

    def table(kind, vals):
        return [(built[k][1][kind][i], vals[k][i]) for k in range(n) for i in range(sys_[k].n[kind])]

    X0 = lookup(big.x, table("x", x0))
    Pv = lookup(big.p, table("p", P))
    THv = gen.thdict(d, len(ts), lambda e: gen.dmv(lookup(big.theta, table("theta", TH[e]))))
    upar_tab = {}
    wsym = {}
    for k, (m, s) in enumerate(built):
        for b in range(sys_[k].n["u"]):
            if (k, b) in par:
                wsym[k, b] = [q for q in m.u_par.nz if q.name() == "w%d_%d" % (k, b)][0]
    Uv = {}
    for e in range(len(ts)):
        tab = [(s_, v) for (s_, v) in table("u", U[e])] + [(wsym[k], U[e][k[0]][k[1]]) for k in par]
        Uv[e] = gen.dmv(lookup(big.u_par, tab))
    r = big.simulate(x_0=gen.dmv(X0), t_f=list(ts), t_0=t0, u=Uv, p=gen.dmv(Pv), theta=THv, integrator_type="implicit",
                     integrator_options={"reltol": 1e-9, "abstol": 1e-10})

    def coupled(t, xs, e):
        ys, us = [], []
        for k in range(n):
            u = np.array(U[e][k], float)
            for b in range(sys_[k].n["u"]):
                if (k, b) in conn:
                    i, a = conn[k, b]
                    u[b] = ys[i][a]
                elif (k, b) in par:
                    u[b] = par[k, b] * xs[k][0] + U[e][k][b] * np.sin(t)
            us.append(u)
            ys.append(sys_[k].yval(t, xs[k], u, P[k], TH[e][k]))
        return ys, us

    sizes = np.cumsum([0] + [s.n["x"] for s in sys_])
    split = lambda z: [z[sizes[k]:sizes[k + 1]] for k in range(n)]

    def rhs(t, z, e):
        xs = split(z)
        ys, us = coupled(t, xs, e)
        return np.concatenate([sys_[k].f(t, xs[k], us[k], P[k], TH[e][k]) for k in range(n)])

    z, t = np.concatenate(x0), t0
    for e, te in enumerate(ts):
        z = solve_ivp(rhs, (t, te), z, args=(e,), method="DOP853", rtol=1e-9, atol=1e-10).y[:, -1]
        t = te
        xs = split(z)
        ys, us = coupled(t, xs, e)
        got = gen.mat(r.get_entry('x')[1])[:, e + 1]
        check(gen.close(got, lookup(big.x, table("x", xs)), 1e-5), "trajectory of the composition", element=e, got=got, expected=z)
        yt = table("y", ys) + table("u", us)
        names = [i for i in range(big.n_y) if not big.y[i].name().startswith("Dummy")]
        got = gen.mat(r.get_entry('y')[1])[:, e] if big.n_y else np.zeros(0)
        check(gen.close(got[names], [v for i in names for s_, v in yt if ca.is_equal(s_, big.y[i])], 1e-5), "algebraic variables of the composition", element=e, got=got)
        ug = gen.mat(r.get_entry('u')[1])[:, e] if big.n_u else np.zeros(0)
        check(gen.close(ug, lookup(big.u, table("u", us)), 1e-5), "controls of the composition", element=e, got=ug)
    d.note("; ".join(s.describe() for s in sys_) + " conn=%s par=%s" % (conn, par))


def sig(m):
    return [str(v) for v in (m.x, m.y, m.u, m.p, m.theta, m.ode, m.alg, m.u_expr, m.u_par, m.x_0, m.t)] + [m.x.numel()]


def initial_condition(d):
    """Network.get_initial_condition is the end of a simulation of the composed problem, for each node"""
    sys_ = [gen.Sys(d, max_x=2, max_y=2, max_u=2, max_p=0, max_th=0, nonlin=False) for _ in range(2)]
    built = [s.build("m%d" % k, "n%d_" % k) for k, s in enumerate(sys_)]
    x0 = [s.vals(d, "x") for s in sys_]
    ug = [s.vals(d, "u") for s in sys_]
    net = Network(name="net")
    probs = []
    for k, (m, s) in enumerate(built):
        p = OptimalControlProblem(m, name="p%d" % k, t_f=2.0, x_0=gen.dmv(x0[k]))
        if sys_[k].n["u"]:
            p.u_guess = gen.dmv(ug[k])
        probs.append(p)
    nodes = [net.create_node(name="node%d" % k, model=p.model, problem=p) for k, p in enumerate(probs)]
    conn = None
    if sys_[0].n["y"] and sys_[1].n["u"]:
        conn = (d.int(0, sys_[0].n["y"] - 1), d.int(0, sys_[1].n["u"] - 1))
        net.connect(y=built[0][1]["y"][conn[0]], u=built[1][1]["u"][conn[1]], node1=nodes[0], node2=nodes[1])
        d.label("connected")
    d.interesting()
    tf = d.choice([0.5, 1.0])
    r = net.get_initial_condition(t_f=tf)
    z0 = np.zeros(0)

    def uu(t, xa):
        ya = sys_[0].yval(t, xa, ug[0], z0, z0)
        u1 = np.array(ug[1], float)
        if conn:
            u1[conn[1]] = ya[conn[0]]
        return ya, u1

    na = sys_[0].n["x"]
    f = lambda t, z: np.concatenate([sys_[0].f(t, z[:na], ug[0], z0, z0), sys_[1].f(t, z[na:], uu(t, z[:na])[1], z0, z0)])
    z = solve_ivp(f, (0, tf), np.concatenate(x0), method="DOP853", rtol=1e-9, atol=1e-10).y[:, -1]
    ya, u1 = uu(tf, z[:na])
    exp = {"node0": (z[:na], ya, ug[0]), "node1": (z[na:], sys_[1].yval(tf, z[na:], u1, z0, z0), u1)}
    check(set(r) == set(exp), "nodes of the initial condition", got=list(r))
    for nm, (x, y, u) in exp.items():
        for k, v in (("x", x), ("y", y), ("u", u)):
            got = gen.arr(r[nm][k]) if len(v) else np.zeros(0)
            check(gen.close(got, v, 1e-4), "initial condition of a node", node=nm, kind=k, got=got, expected=v)


# ------------------------------------------------------------------ optimum
def optimum(d):
    sch = d.choice(["collocation", "collocation", "multiple-shooting"])
    a = ocpgen.LQ(d, scheme=sch, max_el=3, delta=False, min_deg=3)
    b = ocpgen.LQ(d, scheme=sch, delta=False, grid=a)
    for o in (a, b):
        o.prepare()
        o.build()
    d.interesting()
    ra, rb = a.reference(), b.reference()
    if not (ra["ok"] and rb["ok"]):
        d.label("reference failed")
        return
    if d.bool():
        p = OptimalControlProblem(SystemModel(name="big"), name="big", t_0=a.t0, t_f=a.tf)
        p.merge([a.ocp, b.ocp])
    else:
        net = Network(name="net")
        for k, o in enumerate((a, b)):
            net.create_node(name="node%d" % k, problem=o.ocp)
        p = net.get_problem()
        d.label("network")
    kw = dict(finite_elements=a.N, degree=a.degree, degree_control=a.dc, discretization_scheme=sch)
    if sch != "collocation":
        kw["integrator_type"] = "collocation"
    r = DirectMethod(p, **kw).solve(p=ca.vertcat(a.p_arg(a.P), b.p_arg(b.P)), theta={e: ca.vertcat(a.th_arg(a.TH)[e], b.th_arg(b.TH)[e]) for e in range(a.N)})
    if not r.success and (a.degenerate or b.degenerate):
        d.label("degenerate")
        return
    check(ocpgen.solved(r, a.col), "composed problem not solved", status=r.stats.get("return_status"))
    tol = 1e-6 if a.col else 2e-5
    check(gen.close([float(r.objective_opt_problem)], [ra["J"] + rb["J"]], tol), "optimum of the composition is not the sum of the optima",
          got=r.objective_opt_problem, expected=(ra["J"], rb["J"]))
    d.note(a.describe() + " || " + b.describe())


FAMILIES = [Family("problems", problems, 1200, 12000, shards=4, tshards=2), Family("network", network, 1050, 10000, shards=4, tshards=2),
            Family("trajectory", trajectory, 480, 5000, shards=4, tshards=2), Family("initial_condition", initial_condition, 150, 1500, shards=4),
            Family("optimum", optimum, 120, 1500, shards=4)]
