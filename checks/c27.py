"""C27: how fits start"""
import numpy as np
from symx.harness import case
from checks import _mix, _real


class Started(Exception):
    pass


def start(ctx, m, ys, **kw):
    """the fit up to the first time the weights are fitted to groups"""
    wm = m.weight_model
    fit = wm.fit

    def stop(d):
        fit(d)
        raise Started()
    wm.fit = stop
    try:
        m.fit_gibbs(ctx.arr(ys), show_progress=False, **kw)
    except Started:
        return
    ctx.fail("the weights are fitted to the groups")


def simple(ctx, D=1):
    return dict(mu_prior=[0] * D, lambda_prior=1, nu_prior=D,
                psi_prior=[[int(a == b) for b in range(D)]
                           for a in range(D)])


def partition(ctx, n, k):
    """sizes and ranks the k-means stand-in answered with"""
    lab = [int(v) for v in ctx.world.kmeans_calls[-1][2]]
    return lab


def ranked(ctx, lab, d, label):
    """d is lab renamed so that larger groups come first"""
    n = len(lab)
    ctx.check(len(d) == n, label + ": one group per observation")
    for a in range(n):
        for b in range(n):
            ctx.check((d[a] == d[b]) == (lab[a] == lab[b]),
                      label + ": the groups are those of k-means")
    sizes = [d.count(j) for j in range(max(d) + 1)]
    ctx.check(min(sizes) > 0, label + ": no empty group before another")
    ctx.check(all(x >= y for x, y in zip(sizes, sizes[1:])),
              label + ": groups are ranked by size")


def kmeans(ctx, n, k, groups, attr, how):
    """how many groups are asked for and how they are named"""
    D = 1
    ys = _mix.data(ctx, n, D)
    K = attr or groups or 2
    if how == "var":
        _mix.var_stub(ctx, K)
    wm = _mix.stub(ctx, max(K, k), fixed=[1 / max(K, k)] * max(K, k))
    m = _mix.mixture(ctx, wm, total_iter=1, **simple(ctx))
    if attr:
        m.n = attr
    if how == "var":
        first = {}
        if hasattr(m, "_calc_elbo"):
            m._calc_elbo = lambda: 0
        m.total_iter = 1
        m.fit_variational(ctx.arr(ys), n_groups=groups, init_method="kmeans",
                          tol=-1)
        K = groups or attr
    else:
        start(ctx, m, ys, init_groups=groups, init_method="kmeans")
    X, kk, _ = ctx.world.kmeans_calls[0]
    ctx.check(int(kk) == K, "number of k-means groups")
    ctx.eq_all(np.asarray(X), [v for y in ys for v in y],
               "k-means groups the observations")
    lab = [int(v) for v in ctx.world.kmeans_calls[0][2]]
    if how == "gibbs":
        ranked(ctx, lab, [int(v) for v in wm.fits[0]], "initial groups")
    else:
        ctx.check(len(m.var_theta) == K and len(m.var_d) == K,
                  "number of components")


def labels(ctx, n, k, lab):
    """given k-means labels, all orders and sizes"""
    util = ctx.load("pyrichlet.mixture_models._utils")
    if not hasattr(util, "kmeans_cluster_size_biased"):
        return
    ys = _mix.data(ctx, n, 1)
    d = util.kmeans_cluster_size_biased(ctx.arr(ys), k, ctx.rng())
    ranked(ctx, partition(ctx, n, k), [int(v) for v in d], "ranked groups")


def sizes(ctx, groups, grow, how):
    """weights drawn before the first iteration"""
    n = 2
    ys = _mix.data(ctx, n, 1)
    k = groups or 2
    wm = _mix.stub(ctx, k, grow=grow)
    m = _mix.mixture(ctx, wm, total_iter=1, **simple(ctx))
    start(ctx, m, ys, init_groups=groups, init_method=how)
    ctx.check(len(wm.hist) > 0, "weights are drawn")
    if groups is None and wm.tails:
        us = [d.value for d in ctx.draws("uniform")[:n]]
        x = wm.tails[0][0]
        for u in us:
            ctx.le(1 - u, x, "weights cover every slice variable", tol=1e-9)
        ctx.check(any(ctx.identical(1 - u, x) for u in us),
                  "no more weights than the slice variables need")
    d = [int(v) for v in wm.fits[0]]
    ctx.check(len(d) == n, "a group for every observation")
    if how == "random":
        w = list(wm.hist[0])
        if grow and groups is None:
            w = w + list(wm.ext[0])
        tot, acc = ctx.sum(w), []
        for v in w:
            acc.append((acc[-1] if acc else 0) + v)
        us = [e for e in ctx.draws("uniform")][n:2 * n]
        for i in range(n):
            u = us[i].value
            j = d[i]
            ctx.le(u, acc[j] / tot, "initial group follows the weights",
                   tol=1e-9)
            if j:
                ctx.le(acc[j - 1] / tot, u, "initial group follows the "
                       "weights", tol=1e-9)


def drawn(ctx, name, groups, n):
    """prior weights at the start, with the structures themselves"""
    ys = _mix.data(ctx, n, 1)
    m = _real.build(ctx, name, ctx.rng(), _real.params(ctx, name), most=3)
    start(ctx, m, ys, init_groups=groups, init_method="random")
    w = list(m.weight_model.get_weights())
    if groups is not None:
        ctx.check(len(w) == (2 if name in ("DD", "EQ", "FR") else groups),
                  "as many weights as groups asked for")
    else:
        us = [d.value for d in ctx.draws("uniform")[:n]]
        for u in us:
            ctx.le(1 - u, ctx.sum(w), "weights cover every slice variable",
                   tol=1e-9)
        for d in ctx.draws("beta"):
            if name == "DP":
                ctx.eq(d.params["a"], 1, "weights are drawn from the prior")


def variational(ctx, n, k, groups):
    """the variational start is the variational clustering"""
    ys = _mix.data(ctx, n, 1)
    _mix.var_stub(ctx, k)
    wm = _mix.stub(ctx, k, fixed=[1 / k] * k)
    m = _mix.mixture(ctx, wm, total_iter=1, **simple(ctx))
    if hasattr(m, "_calc_elbo"):
        m._calc_elbo = lambda: 0
    start(ctx, m, ys, init_groups=groups, init_method="variational")
    ctx.check(bool(m.var_fitted), "the variational law is fitted")
    ctx.check(len(m.var_d) == k, "as many components as weights")
    want = [int(v) for v in m.var_map_cluster()]
    ctx.check([int(v) for v in wm.fits[0]] == want,
              "initial groups are the variational clusters")


def asked(ctx, how):
    """the number of components of a variational fit"""
    for n_attr, groups, want in ((None, 1, 1), (2, None, 2), (1, 2, 2),
                                 (1, None, 1), (3, 1, 1)):
        ys = _mix.data(ctx, want, 1, f"y{n_attr}{groups}")
        _mix.var_stub(ctx, 3)
        wm = _mix.stub(ctx, 3)
        m = _mix.mixture(ctx, wm, total_iter=1, **simple(ctx))
        if hasattr(m, "_calc_elbo"):
            m._calc_elbo = lambda: 0
        seen = []
        fitv = wm.fit_variational

        def rec(v):
            seen.append(len(v))
            return fitv(v)
        wm.fit_variational = rec
        if n_attr:
            m.n = n_attr
        # the first fit of the weights ends the start: stop there
        m.total_iter = 0
        m.fit_variational(ctx.arr(ys), n_groups=groups, init_method=how,
                          tol=-1)
        ctx.check(set(seen) == {want}, "number of components")


for n, k, groups, attr, how, tier in (
        (2, 2, None, None, "gibbs", "quick"), (3, 2, 2, None, "gibbs",
                                               "quick"),
        (3, 3, 3, None, "gibbs", "quick"), (6, 3, 3, None, "gibbs", "quick"),
        (5, 2, None, None, "gibbs", "quick"), (3, 2, 3, 2, "gibbs", "quick"),
        (4, 2, 2, None, "gibbs", "quick"), (1, 1, 1, None, "gibbs", "quick"),
        (2, 2, None, 1, "gibbs", "quick"), (4, 3, 3, None, "gibbs",
                                            "thorough"),
        (2, 2, 2, None, "var", "quick"), (2, 2, 1, 2, "var", "quick"),
        (2, 2, None, 2, "var", "quick")):
    case("C27", f"kmeans-{n}-{k}-{groups}-{attr}-{how}", f"{n} observations, "
         f"init_groups {groups}, n {attr}, {how}", n=n, k=k, groups=groups,
         attr=attr, how=how, branch_ms=300, maxdraws=200, tier=tier,
         track=how == "var", halflogs=how != "var")(kmeans)
for n, k in ((1, 1), (3, 2), (4, 2), (4, 3), (5, 3), (6, 3), (4, 4)):
    case("C27", f"labels-{n}-{k}", f"{n} observations, {k} groups", n=n, k=k,
         lab=None)(labels)
for groups, grow, how in ((None, 0, "kmeans"), (None, 1, "kmeans"),
                          (2, 0, "kmeans"), (1, 0, "kmeans"),
                          (None, 0, "random"), (None, 1, "random"),
                          (2, 0, "random"), (3, 0, "random")):
    case("C27", f"sizes-{groups}-{grow}-{how}", f"init_groups {groups}, "
         f"{how} start", groups=groups, grow=grow, how=how, branch_ms=300,
         maxdraws=200)(sizes)
for nm in ("DP", "PY", "BiB", "GP", "BBin", "DD", "EQ", "FR"):
    for groups, n in ((1, 1), (2, 2), (3, 1), (None, 1), (None, 2)):
        if nm in ("GP", "FR") and groups is None:
            continue        # C03
        case("C27", f"drawn-{nm}-{groups}-{n}", f"init_groups {groups}, {n} "
             "observations", name=nm, groups=groups, n=n, branch_ms=300,
             maxdraws=60)(drawn)
for n, k, groups in ((1, 1, None), (2, 2, 2), (1, 1, 1), (2, 2, 1)):
    case("C27", f"variational-{n}-{k}-{groups}", f"{n} observations, {k} "
         "components", n=n, k=k, groups=groups, branch_ms=300, maxdraws=200,
         track=True, halflogs=False)(variational)
for how in ("kmeans", "random"):
    case("C27", f"asked-{how}", "number of variational components", how=how,
         branch_ms=300, maxdraws=200, track=True, halflogs=False)(asked)
