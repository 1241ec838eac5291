"""C12: data sets keep every inserted point, aligned and in time order"""
import os
import pickle
import re
import shutil
import tempfile
import warnings

import casadi as ca
import gen
import numpy as np
from core import Family, Violation, check, raises
from yaocptool.modelling import DataSet, SimulationResult

RULE = ("random histories of create_entry/insert/extend/sort/copy/save-load/plot and refused calls on one or more data sets against a reference of (time, column) lists; "
        "compared after every call. Non-trivial: at least one sort, extend or copy on a data set holding data out of order, or a refused call")

NAMES = ["x", "u", "y", "est", "meas"]
ROWS = ["h", "h_1", "h_10", "q", "v", "a.b", "qh"]


class Ref:
    def __init__(self):
        self.e = {}  # entry -> [size, names, style, [(t, col)...]]

    def clone(self):
        r = Ref()
        r.e = {k: [v[0], list(v[1]), v[2], list(v[3])] for k, v in self.e.items()}
        return r

    def sort(self, ks=None):
        for k in self.e if ks is None else ks:
            self.e[k][3].sort(key=lambda p: p[0])


def mat(pts, size):
    return ca.DM(np.array([c for _, c in pts]).T.reshape(size, len(pts))) if pts else ca.DM(size, 0)


def compare(ds, r):
    check(list(ds.data) == list(r.e), "entries", got=list(ds.data), expected=list(r.e))
    for k, (size, names, style, pts) in r.e.items():
        t, v = ds.get_entry(k)
        check(ds.get_entry_size(k) == size and list(ds.get_entry_names(k)) == names, "entry description", entry=k, names=ds.get_entry_names(k), expected=names)
        check(t.numel() == len(pts) and gen.close(gen.arr(t) if pts else np.zeros(0), [p[0] for p in pts], 1e-14), "times of the entry", entry=k, got=t,
              expected=[p[0] for p in pts])
        if pts and size:
            check(v.shape == (size, len(pts)) and gen.close(gen.mat(v), np.array([c for _, c in pts]).T, 1e-14), "values of the entry", entry=k, got=v,
                  expected=np.array([c for _, c in pts]).T)


def points(d, size, n):
    ts = [d.num(0, 4, 0.5) for _ in range(n)]
    return [(t, tuple(d.num(-3, 3, 0.25) for _ in range(size))) for t in ts]


def new_set(d, kind=None):
    if kind == "sim" or (kind is None and d.int(0, 3) == 0):
        n = [d.int(1, 2), d.int(0, 1), d.int(0, 2)]
        names = [d.perm(ROWS)[:k] for k in n]
        ds = SimulationResult(n_x=n[0], n_y=n[1], n_u=n[2], x_names=list(names[0]), y_names=list(names[1]), u_names=list(names[2]), t_0=0.0, t_f=2.0, finite_elements=2)
        r = Ref()
        for k, nn, nm in zip("xyu", n, names):
            r.e[k] = [nn, list(nm), "plot", []]
        return ds, r
    return DataSet(name=d.choice(["a", "b"])), Ref()


def op(d, ds, r, scratch):
    k = d.weighted([(3, "create"), (5, "insert"), (2, "sort"), (2, "extend"), (1, "copy"), (1, "save"), (2, "reject"), (1, "alias")])
    ks = list(r.e)
    if k == "create" or not ks:
        nm = d.choice(NAMES)
        size = d.int(0, 3)
        if nm in r.e and r.e[nm][3]:
            return
        names = d.perm(ROWS)[:size] if d.bool() else None
        style = d.choice(["plot", "step"])
        given = list(names) if names is not None else None
        ds.create_entry(nm, size, given, plot_style=style) if names is not None else ds.create_entry(nm, size=size, plot_style=style)
        r.e[nm] = [size, names if names is not None else ["%s_%d" % (nm, i) for i in range(size)], style, []]
        return
    nm = d.choice(ks)
    size = r.e[nm][0]
    if k == "insert":
        n = d.int(1, 4)
        pts = points(d, size, n)
        v = mat(pts, size)
        ts = [p[0] for p in pts]
        if n == 1:
            t = d.choice([ts, ts[0], ca.DM(ts[0])])
        else:
            t = ts if d.bool() else ca.DM([ts])
        ds.insert_data(nm, t, v)
        r.e[nm][3] += pts
        d.label("insert")
    elif k == "alias":  # changing the inserted matrix afterwards changes nothing
        pts = points(d, size, 1)
        v, t = mat(pts, size), ca.DM(pts[0][0])
        ds.insert_data(nm, t, v)
        if size:
            v[0, 0] = 99.0
        t[0] = 99.0
        r.e[nm][3] += pts
        d.label("alias")
    elif k == "sort":
        ooo = any(v[3] != sorted(v[3], key=lambda p: p[0]) for v in r.e.values())
        d.interesting(ooo)
        if d.bool():
            ds.sort()
            r.sort()
        else:
            sel = d.subset(ks)
            ds.sort(sel) if d.bool() else ds.sort(entries=tuple(sel))
            r.sort(sel)
        d.label("sort")
    elif k == "extend":
        other, ro = DataSet(name="other"), Ref()
        for e in d.subset(NAMES):
            s = r.e[e][0] if e in r.e else d.int(0, 2)
            names = r.e[e][1] if e in r.e else ["%s_%d" % (e, i) for i in range(s)]
            other.create_entry(e, s, list(names))
            ro.e[e] = [s, list(names), "plot", points(d, s, d.int(0, 3))]
            if ro.e[e][3]:
                other.insert_data(e, [p[0] for p in ro.e[e][3]], mat(ro.e[e][3], s))
        if isinstance(ds, SimulationResult):
            DataSet.extend(ds, other)
        else:
            ds.extend(other)
        for e, (s, names, st, pts) in ro.e.items():
            if e not in r.e:
                r.e[e] = [s, list(names), st, []]
                if s and d.bool():  # in one only
                    other.data[e].names[0] = "renamed"
                    ro.e[e][1] = ["renamed"] + names[1:]
                d.label("extend with a new entry")
            r.e[e][3] += pts
        r.sort()
        compare(other, ro)
        d.interesting(bool(ro.e))
        d.label("extend")
    elif k == "copy":
        c, rc = ds.get_copy(), r.clone()
        check(type(c) is type(ds) and c.name == ds.name, "type of the copy")
        for _ in range(d.int(1, 3)):
            e = d.choice(list(rc.e))
            pts = points(d, rc.e[e][0], 1)
            c.insert_data(e, [pts[0][0]], mat(pts, rc.e[e][0]))
            rc.e[e][3] += pts
            if d.bool():
                c.sort()
                rc.sort()
        c.create_entry("extra", 1)
        rc.e["extra"] = [1, ["extra_0"], "plot", []]
        if rc.e[nm][0]:
            c.data[nm].names[0] = "renamed"
            rc.e[nm][1] = ["renamed"] + rc.e[nm][1][1:]
            if rc.e[nm][3]:
                c.data[nm].values[0, 0] = 77.0
                t0, c0 = rc.e[nm][3][0]
                rc.e[nm][3] = [(t0, (77.0,) + tuple(c0[1:]))] + rc.e[nm][3][1:]
        compare(c, rc)
        compare(ds, r)
        e = d.choice(ks)  # and the other way round
        pts = points(d, r.e[e][0], 1)
        ds.insert_data(e, [pts[0][0]], mat(pts, r.e[e][0]))
        r.e[e][3] += pts
        compare(c, rc)
        d.interesting()
        d.label("copy")
    elif k == "save":
        path = os.path.join(scratch, d.choice(["r.p", "sub/dir/r.p"]))
        ds.save(path)
        with open(path, "rb") as f:
            back = pickle.load(f)
        compare(back, r)
        check(type(back) is type(ds) and back.name == ds.name, "type of the loaded data set")
        d.label("save")
    elif k == "reject":
        n = d.int(1, 3)
        which = d.int(0, 3)
        if which == 0:
            bad = lambda: ds.insert_data(nm, [0.5] * n, ca.DM.ones(size, n + d.choice([1, 2])))
        elif which == 1:
            bad = lambda: ds.insert_data(nm, [0.5] * n, ca.DM.ones(size + d.choice([1, 2]), n))
        elif which == 2:
            bad = lambda: ds.insert_data("nobody", [0.5] * n, ca.DM.ones(1, n))
        else:
            other = DataSet()
            for e in ks:
                other.create_entry(e, r.e[e][0] + (1 if e == nm else 0))
                if r.e[e][0]:
                    other.insert_data(e, [0.25], ca.DM.ones(other.get_entry_size(e), 1))
            bad = lambda: DataSet.extend(ds, other)
        check(raises(bad), "an inconsistent insertion was accepted", which=which)
        d.interesting()
        d.label("reject")


def frame(ds, r):
    full = {k: v for k, v in r.e.items() if v[0]}
    df = ds.as_dataframe()
    cols = [(k, n) for k, v in full.items() for n in v[1]]
    check([tuple(c) for c in df.columns] == cols, "columns of the dataframe", got=list(df.columns), expected=cols)
    for k, (size, names, _, pts) in full.items():
        sub = df[[(k, n) for n in names]]
        got = {}
        for t, row in zip(sub.index, sub.to_numpy(dtype=float)):
            if not np.isnan(row).all():
                got.setdefault(float(t), set()).add(tuple(row))
        exp = {}
        for t, c in pts:
            exp.setdefault(t, set()).add(tuple(float(v) for v in c))
        check(got == exp, "dataframe does not hold the data of the entry", entry=k, got=got, expected=exp)
    ts = {t for v in full.values() for t, _ in v[3]}
    check(set(float(t) for t in df.index) == ts, "time index of the dataframe")


def history(d):
    warnings.simplefilter("ignore")
    ds, r = new_set(d)
    scratch = tempfile.mkdtemp(prefix="verif_c12_")
    try:
        for _ in range(d.int(2, 14)):
            op(d, ds, r, scratch)
            compare(ds, r)
        if len({n for v in r.e.values() for n in v[1]}) or not r.e:
            frame(ds, r)
        d.note(str({k: (v[0], len(v[3])) for k, v in r.e.items()}))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def sim_extend(d):
    """extending a simulation result with one that starts where it ends"""
    a, ra = new_set(d, "sim")
    t = 0.0

    def fill(ds, r, t0, n):
        xs = [(t0 + 0.5 * i, tuple(d.num(-3, 3) for _ in range(r.e["x"][0]))) for i in range(n + 1)]
        ds.insert_data("x", [p[0] for p in xs], mat(xs, r.e["x"][0]))
        r.e["x"][3] += xs
        for k in "yu":
            ps = [(t0 + 0.5 * (i + 1), tuple(d.num(-3, 3) for _ in range(r.e[k][0]))) for i in range(n)]
            ds.insert_data(k, [p[0] for p in ps], mat(ps, r.e[k][0]))
            r.e[k][3] += ps
        ds.t_0, ds.t_f, ds.finite_elements = t0, t0 + 0.5 * n, n

    na = d.int(1, 3)
    fill(a, ra, 0.0, na)
    nm = {k: list(ra.e[k][1]) for k in "xyu"}
    b = SimulationResult(n_x=ra.e["x"][0], n_y=ra.e["y"][0], n_u=ra.e["u"][0], x_names=nm["x"], y_names=nm["y"], u_names=nm["u"], t_0=0.0, t_f=1.0, finite_elements=1)
    rb = Ref()
    rb.e = {k: [ra.e[k][0], nm[k], "plot", []] for k in "xyu"}
    nb = d.int(1, 3)
    fill(b, rb, 0.5 * na, nb)
    d.interesting()
    rev = d.bool()
    first, second = (b, a) if rev else (a, b)
    r1, r2 = (rb, ra) if rev else (ra, rb)
    first.extend(second)
    for k in "xyu":
        r1.e[k][3] += r2.e[k][3]
    r1.sort()
    compare(first, r1)
    compare(second, r2)
    check(first.t_0 == 0.0 and first.t_f == 0.5 * (na + nb) and first.finite_elements == na + nb, "interval of the extended result", got=(first.t_0, first.t_f,
                                                                                                                                          first.finite_elements))
    fc = first.final_condition()
    for k in "xyu":
        if r1.e[k][0]:
            check(gen.close(gen.arr(fc[k]), r1.e[k][3][-1][1]), "final condition", kind=k, got=fc[k], expected=r1.e[k][3][-1])
    for k, v in (("x", first.x), ("y", first.y), ("u", first.u)):
        if r1.e[k][0]:
            check(len(v) == len(r1.e[k][3]) and all(gen.close(gen.arr(c), p[1]) for c, p in zip(v, r1.e[k][3])), "trajectory of the result", kind=k)
    check(gen.close(gen.arr(first.t), [p[0] for p in r1.e["x"][3]]), "times of the result")
    c = SimulationResult(n_x=ra.e["x"][0] + 1, n_y=ra.e["y"][0], n_u=ra.e["u"][0], x_names=["k%d" % i for i in range(ra.e["x"][0] + 1)], y_names=nm["y"],
                         u_names=nm["u"], t_0=0.0, t_f=1.0, finite_elements=1)
    check(raises(lambda: first.extend(c)), "results of different sizes were joined")


def plot(d):
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    import seaborn

    # the installed seaborn does not work with the installed pandas: an equivalent line plot stands in for it
    seaborn.lineplot = lambda x=None, y=None, label="", **kw: plt.gca().plot(x, y, label=label)
    plt.close("all")
    try:
        ds, r = DataSet(), Ref()
        for e in d.subset(["x", "u", "y"], 1):
            size = d.int(1, 3)
            names = d.perm(ROWS)[:size]
            style = d.choice(["plot", "step"])
            ds.create_entry(e, size, list(names), plot_style=style)
            n = d.int(2, 4)
            pts = [(0.5 * i, tuple(d.num(-3, 3) for _ in range(size))) for i in range(n)]
            ds.insert_data(e, [p[0] for p in pts], mat(pts, size))
            r.e[e] = [size, names, style, pts]
        exact = d.bool()
        sel, exp = [], []
        for _ in range(d.int(1, 2)):
            one, rows = {}, []
            for e in d.subset(list(r.e), 1):
                size, names = r.e[e][0], r.e[e][1]
                k = d.int(0, 2)
                if k == 0:
                    one[e] = "all"
                    idx = list(range(size))
                elif k == 1:
                    idx = d.subset(list(range(size)), 1)
                    one[e] = list(idx)
                else:
                    pats = d.subset(names if exact else names + ["h.*", "[qv]"], 1)
                    pats = [p for p in pats if exact or any(re.match(p, q) for q in names)]
                    if not pats:
                        continue
                    mix = [d.int(0, size - 1)] if d.bool() else []
                    one[e] = mix + list(pats)
                    idx = mix + [i for p in pats for i, q in enumerate(names) if (q == p if exact else re.match(p, q))]
                rows += [(e, i) for i in idx]
            if one:
                sel.append(one)
                exp.append(rows)
        if not sel:
            return
        d.interesting()
        given = pickle.dumps(sel)
        figs = None
        if d.int(0, 2) == 0:
            figs = [plt.figure(50 + i) for i in range(len(sel))]
            d.label("given figures")
        out = ds.plot(*sel, figures=figs, show=False, exact=exact)
        check(pickle.dumps(pickle.loads(given)) == pickle.dumps(sel), "plot changed the selection it was given", before=pickle.loads(given), after=sel)
        check(len(out) == len(sel) and (figs is None or all(a is b for a, b in zip(out, figs))), "figures used by plot")
        for f, rows in zip(out, exp):
            ax = f.axes[0]
            lines = [l for l in ax.get_lines() if not l.get_label().startswith("_")]
            got = sorted((l.get_label(), l.get_drawstyle(), tuple(np.round(l.get_ydata(), 9)), tuple(np.round(l.get_xdata(), 9))) for l in lines)
            want = sorted((r.e[e][1][i], "steps-post" if r.e[e][2] == "step" else "default", tuple(np.round([p[1][i] for p in r.e[e][3]], 9)), tuple(np.round([p[0] for p in r.e[e][3]], 9))) for e, i in rows)
            check(got == want, "plotted lines are not the selected variables", got=got, expected=want, selection=sel)
    finally:
        plt.close("all")


FAMILIES = [Family("history", history, 4800, 40000, shards=4, tshards=5), Family("sim_extend", sim_extend, 800, 5000, shards=4), Family("plot", plot, 320, 3000, shards=4)]
