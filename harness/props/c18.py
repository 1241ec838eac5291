"""C18: sampling and polynomial-chaos helpers"""
from itertools import product
from math import comb, factorial

import casadi as ca
import gen
import numpy as np
from core import Family, check, raises

RULE = ("random dimensions, means (lists, DM), positive definite covariances (dense, nearly degenerate, badly scaled), sample counts 1..300, polynomial orders up to 10, regularisations, random polynomials; random "
        "sequences of declarations of a stochastic problem. Oracle: numpy Cholesky and least squares, normal quantiles / discrepancy of the whitened points, scipy's Hermite polynomials, exact Gaussian moments, "
        "a model of the declared lists. Non-trivial: more than one sample or more than one basis function / at least one uncertain quantity declared")


def covariance(d, n):
    a = np.array([d.vec(n, -1.5, 1.5) for _ in range(n)]).reshape(n, n)
    c = a @ a.T + d.choice([1e-3, 0.1, 1.0]) * np.eye(n)
    s = np.array([d.choice([0.01, 1.0, 1.0, 10.0]) for _ in range(n)])
    return c * np.outer(s, s)


def as_mean(d, v):
    """a mean as a caller may give it"""
    return [float(k) for k in v] if d.bool() else gen.dmv(v)


def normal(d):
    from scipy.stats import norm
    from yaocptool.stochastic import sample_parameter_log_normal_distribution_with_sobol as lognormal
    from yaocptool.stochastic import sample_parameter_normal_distribution_with_sobol as sample

    n, k = d.int(1, 5), d.weighted([(3, d.int(1, 20)), (1, d.int(21, 300))])
    mean, cov = np.array(d.vec(n, -3, 3)), covariance(d, n)
    d.note("n=%d samples=%d mean=%s cov=%s" % (n, k, mean, cov.tolist()))
    cv = ca.DM(cov)
    s = gen.mat(sample(as_mean(d, mean), cv, k))
    check(s.shape == (n, k), "number of samples", got=s.shape, expected=(n, k))
    if k == 1 and d.bool():
        check(gen.close(gen.mat(sample(as_mean(d, mean), cv)), s, 1e-12), "one sample by default")
    check(gen.close(gen.mat(sample(as_mean(d, mean), cv, k)), s, 1e-12), "sampling twice gives other points")
    check(gen.close(np.array(cv), cov, 0), "the covariance passed was changed")
    # whitened points: standard normal quantiles of a low discrepancy sequence
    chol = np.linalg.cholesky(cov)
    z = np.linalg.solve(chol, s - mean.reshape(-1, 1))
    tol = 1e-7 * np.linalg.cond(chol)
    std = gen.mat(sample(gen.dmv(np.zeros(n)), ca.DM.eye(n), k))
    check(gen.close(z, std, max(1e-7, tol)), "samples are not mean + chol(covariance) x standard samples", got=z, expected=std)
    uni = norm.cdf(std)
    check(np.all((uni > 0) & (uni < 1)), "samples at infinity", got=std)
    check(len({tuple(np.round(c, 9)) for c in uni.T}) == k, "repeated samples")
    for i in range(n):
        v = np.sort(uni[i])
        grid = np.arange(1, k + 1)
        ks = max(np.max(np.abs(v - grid / k)), np.max(np.abs(v - (grid - 1) / k)))
        check(ks <= (2.0 + 1.5 * np.log2(k + 1)) / k + 1e-12, "points are not spread like the distribution", dimension=i, ks=ks)
    if k >= 50:
        check(np.all(np.abs(std.mean(axis=1)) < 0.15), "mean of the samples", got=std.mean(axis=1))
        c = np.atleast_2d(np.cov(std))
        check(np.all(np.abs(c - np.eye(n)) < 0.3), "covariance of the samples", got=c)
        d.label("moments judged")
    pos = np.exp(mean / 3)
    sl = gen.mat(lognormal(as_mean(d, pos), cv, k))
    # exponent kept within floating point range
    ref = np.exp(gen.mat(sample(gen.dmv(np.log(pos)), cv, k)))
    ok = np.isfinite(ref) & (ref > 0)
    check(sl.shape == (n, k) and np.allclose(sl[ok], ref[ok], rtol=1e-6), "log-normal samples are not the exponentials of the normal ones with mean log(mean)", got=sl, expected=ref)
    d.label("n=%d" % n)
    if k > 1:
        d.interesting()


def basis(d):
    """least squares factor and basis of the polynomial chaos expansion"""
    from scipy.special import eval_hermitenorm
    from yaocptool.stochastic import sample_parameter_normal_distribution_with_sobol as sample
    from yaocptool.stochastic.pce import get_ls_factor

    n = d.weighted([(2, 1), (2, 2), (1, 3)])
    top = {1: 10, 2: 4, 3: 2}[n]
    order = d.weighted([(1, top), (1, d.int(1, top))])
    npar = comb(n + order, order)
    k = npar + d.weighted([(1, 0), (3, d.int(1, 40))])
    lamb = d.weighted([(3, 0.0), (1, d.choice([1e-3, 0.1, 1.0]))])
    d.note("n=%d order=%d samples=%d lamb=%s" % (n, order, k, lamb))
    ex = [e for e in product(range(order + 1), repeat=n) if sum(e) <= order]
    herm = lambda x: np.array([np.prod([eval_hermitenorm(q, x[j]) for j, q in enumerate(e)]) for e in ex])
    std = gen.mat(sample(gen.dmv(np.zeros(n)), ca.DM.eye(n), k))
    psi = np.array([herm(std[:, i]) for i in range(k)])
    A = psi.T @ psi + lamb * np.eye(npar)
    cond = np.linalg.cond(A)
    ls, expect, psi_fcn = get_ls_factor(n, k, order, lamb) if lamb or d.bool() else get_ls_factor(n, k, order)
    ls, expect = gen.mat(ls), gen.arr(expect)
    check(ls.shape == (npar, k) and expect.shape == (npar,), "shape of the factor", got=(ls.shape, expect.shape), expected=((npar, k), npar))
    for _ in range(4):
        x = np.array(d.vec(n, -2.5, 2.5))
        check(np.allclose(gen.arr(psi_fcn(gen.dmv(x))), herm(x), rtol=1e-9, atol=1e-9), "the basis is not made of the Hermite polynomials", x=x, got=psi_fcn(gen.dmv(x)), expected=herm(x))
    exact = np.array([np.prod([float(factorial(q)) for q in e]) for e in ex])
    check(np.allclose(expect, exact, rtol=1e-9), "expectations of the squared basis", got=expect, expected=exact)
    if cond >= 1e12:
        d.label("badly conditioned: basis and expectations only")
        d.interesting()
        return
    ref = np.linalg.solve(A, psi.T)
    check(np.allclose(ls, ref, rtol=1e-5, atol=1e-13 * cond * max(1.0, np.max(np.abs(ref))) + 1e-9), "least squares factor", got=ls, expected=ref)
    if lamb == 0.0 and cond < 1e9:
        coef = np.array(d.vec(npar, -2, 2))
        mono = np.array([np.prod([std[j] ** q for j, q in enumerate(e)], axis=0) for e in ex])
        c = ls @ (coef @ mono)
        for _ in range(3):
            x = np.array(d.vec(n, -1.5, 1.5))
            val = coef @ np.array([np.prod([x[j] ** q for j, q in enumerate(e)]) for e in ex])
            got = c @ gen.arr(psi_fcn(gen.dmv(x)))
            scale = max(1.0, np.max(np.abs(coef @ mono)))
            check(abs(got - val) <= 1e-5 * scale, "a polynomial of the basis is not reproduced", got=got, expected=val)
        d.label("polynomial reproduced")
    d.label("n=%d order=%d" % (n, order))
    d.interesting()


def declare(d):
    """the uncertain quantities of a stochastic problem are the declared ones, in order"""
    from yaocptool.modelling import StochasticOCP, SystemModel

    m = SystemModel(name="m")
    nx = d.int(1, 3)
    x = m.create_state("x", nx)
    pars = [m.create_parameter("q%d" % i, d.int(1, 2)) for i in range(d.int(0, 3))]
    m.include_equations(ode=-x + (ca.sum1(ca.vertcat(*pars)) if pars else 0), x=x)
    o = StochasticOCP(m, x_0=ca.DM.zeros(nx), t_f=1.0)
    names = lambda v: [v[i].name() for i in range(v.numel())]
    unc, mean, cov, dist, rest = [], [], np.zeros((0, 0)), [], [k for q in pars for k in names(q)]
    ic, icm, icc, icd = [], [], np.zeros((0, 0)), []
    gs = []

    def block(a, b):
        n = len(a) + len(b)
        c = np.zeros((n, n))
        c[:len(a), :len(a)], c[len(a):, len(a):] = a, b
        return c

    free, fx = list(pars), list(range(nx))
    for step in range(d.int(1, 6)):
        kind = d.choice(["create", "include", "set", "initial", "chance", "bad"])
        dn = d.choice(["normal", "normal", "uniform"])
        if kind in ("create", "include") or (kind == "set" and free):
            if kind == "set":
                par = free.pop(d.int(0, len(free) - 1))
                k = par.numel()
            else:
                k = d.int(1, 2)
            mu, cv = np.array(d.vec(k, -2, 2)), covariance(d, k)
            if kind == "create":
                par = o.create_uncertain_parameter("w%d" % step, gen.dmv(mu), ca.DM(cv), k, dn)
            elif kind == "include":
                par = ca.SX.sym("w%d" % step, k)
                o.include_uncertain_parameter(par, gen.dmv(mu), ca.DM(cv), distribution=dn)
            else:
                o.set_parameter_as_uncertain_parameter(par, gen.dmv(mu), ca.DM(cv), distribution=dn)
            unc += names(ca.vec(par))
            mean += list(mu)
            cov = block(cov, cv)
            dist += [dn] * k
            rest = [q for q in rest if q not in unc]
        elif kind == "initial" and fx:
            sub = [fx.pop(d.int(0, len(fx) - 1)) for _ in range(d.int(1, len(fx)))]
            mu, cv = np.array(d.vec(len(sub), -2, 2)), covariance(d, len(sub))
            o.set_initial_condition_as_uncertain(o.model.x_0[sub], gen.dmv(mu), ca.DM(cv), dn)
            ic += sub
            icm += list(mu)
            icc = block(icc, cv)
            icd += [dn] * len(sub)
        elif kind == "chance":
            k = d.int(1, 2)
            e = [x[d.int(0, nx - 1)] for _ in range(k)]
            pr = [d.choice([0.5, 0.9, 0.95]) for _ in range(k)]
            rhs = d.vec(k, -1, 1)
            given = d.bool()
            ex, pb = (e if d.bool() else ca.vertcat(*e)), (pr if k > 1 or d.bool() else pr[0])
            o.include_time_chance_inequality(ex, pb, [float(r) for r in rhs] if given else None)
            gs += [(a.name(), r if given else 0.0, q) for a, r, q in zip(e, rhs, pr)]
        elif kind == "bad":
            q = ca.SX.sym("bad", 2)
            check(raises(lambda: o.set_parameter_as_uncertain_parameter(q, ca.DM([1.0]), ca.DM.eye(1)), ValueError), "mean of another size accepted")
            check(raises(lambda: o.set_parameter_as_uncertain_parameter(q, ca.DM([1.0, 2.0]), ca.DM([1.0, 1.0])), ValueError), "covariance of another size accepted")
            check(raises(lambda: o.set_initial_condition_as_uncertain(o.model.x_0[0], ca.DM([1.0, 2.0]), ca.DM.eye(2)), ValueError), "mean of another size accepted")
            check(raises(lambda: o.include_time_chance_inequality(ca.vertcat(x[0], x[0]), [0.9, 0.9], [1.0]), ValueError), "right hand side of another size accepted")
            check(raises(lambda: o.include_time_chance_inequality(ca.vertcat(x[0], x[0]), [0.9], [1.0, 1.0]), ValueError), "probabilities of another size accepted")
            d.label("refused")
    d.note("unc=%s ic=%s chance=%s" % (unc, ic, gs))
    check(o.n_p_unc == len(unc) and (not unc or names(o.p_unc) == unc), "uncertain parameters", got=o.p_unc, expected=unc)
    check(gen.close(gen.arr(o.p_unc_mean), mean, 1e-12) and list(o.p_unc_dist) == dist, "means of the uncertain parameters", got=o.p_unc_mean, expected=mean)
    check(gen.close(gen.mat(o.p_unc_cov) if unc else np.zeros((0, 0)), cov, 1e-12), "covariance of the uncertain parameters", got=o.p_unc_cov, expected=cov)
    check(o.n_uncertain_initial_condition == len(ic) and list(o.get_uncertain_initial_cond_indices()) == ic, "uncertain initial conditions", got=o.uncertain_initial_conditions, expected=ic)
    check(gen.close(gen.arr(o.uncertain_initial_conditions_mean), icm, 1e-12) and list(o.uncertain_initial_conditions_distribution) == icd, "means of the initial conditions")
    check(gen.close(gen.mat(o.uncertain_initial_conditions_cov) if ic else np.zeros((0, 0)), icc, 1e-12), "covariance of the initial conditions", got=o.uncertain_initial_conditions_cov, expected=icc)
    pn = names(o.model.p) if o.model.n_p else []
    check([pn[i] for i in o.get_p_unc_indices()] == unc, "indices of the uncertain parameters", got=o.get_p_unc_indices(), expected=unc)
    w = o.get_p_without_p_unc()
    check((names(w) if w.numel() else []) == rest, "parameters that are not uncertain", got=w, expected=rest)
    check(o.n_g_stochastic == len(gs), "number of chance constraints", got=o.n_g_stochastic, expected=len(gs))
    for i, (a, r, q) in enumerate(gs):
        check(o.g_stochastic_ineq[i].name() == a and abs(float(o.g_stochastic_rhs[i]) - r) < 1e-12 and abs(float(o.g_stochastic_prob[i]) - q) < 1e-12, "chance constraint", i=i)
    if unc or ic or gs:
        d.interesting()


FAMILIES = [
    Family("declare", declare, 750, 4500, shards=4, tshards=4),
    Family("normal", normal, 750, 4500, shards=4, tshards=8),
    Family("basis", basis, 750, 4500, shards=4, tshards=8),
]
