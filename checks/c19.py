"""C19: Gibbs sampler: clusters, uncertainty and affinity"""
import numpy as np
from symx.harness import case
from checks import _mix


def best(ctx, x, s):
    """index of the component with the largest weighted density, and its
    posterior probability"""
    l = [ctx.log(w) + _mix.logpdf(ctx, x, s["theta"][j])
         for j, w in enumerate(s["w"])]
    b = 0
    for j in range(1, len(l)):
        if bool(l[j] > l[b]):
            b = j
    return b, l


def prob(ctx, got, b, l):
    """got is the probability of component b given the log scores"""
    e = [ctx.exp(v) for v in l]
    want = e[b] / ctx.sum(e)
    if not ctx.identical(got, want):
        want = 1 / ctx.sum(1 if j == b else ctx.exp(v - l[b])
                           for j, v in enumerate(l))
    ctx.eq(got, want, "uncertainty is one minus the posterior probability of "
           "the cluster")


def fit(ctx, D, k, T, burn=0, sub=1, path=None, fixed=None):
    kw, pr = _mix.priors(ctx, D)
    n = len(path[0]) if path else 1 if k > 1 else 2
    ys = _mix.data(ctx, n, D)
    wm = _mix.stub(ctx, k, path=path, fixed=fixed, flat=bool(path))
    mix = _mix.mixture(ctx, wm, total_iter=T, burn_in=burn,
                       subsample_steps=sub, **kw)
    mix.fit_gibbs(ctx.arr(ys), init_groups=k,
                  init_method="random", show_progress=False)
    return mix, ys


def points(ctx, ys, D, m, form):
    if form == "fitted":
        return ys, None
    xs = _mix.data(ctx, m, D, "x")
    if form == "list":
        return xs, [list(x) for x in xs]
    if form == "flat":
        return xs, ctx.arr([x[0] for x in xs])
    return xs, ctx.arr(xs)


def cluster(ctx, D, k, T, m, form, full):
    mix, ys = fit(ctx, D, k, T)
    xs, arg = points(ctx, ys, D, m, form)
    s = mix.map_sim_params
    got = mix.gibbs_map_cluster(arg, full=full) if full is not None else \
        mix.gibbs_map_cluster(arg)
    want = [best(ctx, x, s) for x in xs]
    if full:
        ctx.check(len(got) == 2, "clusters and uncertainties")
        lab, unc = got
        ctx.check(np.shape(unc) == (len(xs),), "one uncertainty per point")
        for i in range(len(xs)):
            prob(ctx, 1 - unc[i], *want[i])
    else:
        lab = got
    ctx.check(np.shape(lab) == (len(xs),), "one cluster per point")
    for a in range(len(xs)):
        for b in range(a):
            ctx.check((int(lab[a]) == int(lab[b])) ==
                      (want[a][0] == want[b][0]),
                      "points share a cluster exactly when they share the "
                      "most probable component")


def affinity(ctx, D, k, T, m, form, ncl=None, burn=0, sub=1, path=None,
             fixed=None):
    mix, ys = fit(ctx, D, k, T, burn, sub, path, fixed)
    xs, arg = points(ctx, ys, D, m, form)
    states = mix.get_sim_params()
    if form == "fitted":
        lab = [[int(v) for v in s["d"]] for s in states]
    else:
        lab = [[best(ctx, x, s)[0] for x in xs] for s in states]
    want = [[ctx.sum(int(l[a] == l[b]) for l in lab) / len(lab)
             for b in range(len(xs))] for a in range(len(xs))]
    if ncl is None:
        got = mix.gibbs_eap_affinity_matrix(arg)
    else:
        labels = mix.gibbs_eap_spectral_consensus_cluster(
            arg, n_clusters=ncl)
        got, c, how, out = ctx.world.spectral[-1]
        ctx.check(c == ncl and how == "precomputed",
                  "spectral clustering of a given affinity")
        ctx.eq_all(labels, out, "the consensus labels are returned")
    ctx.check(np.shape(got) == (len(xs), len(xs)), "square affinity")
    ctx.eq_all(np.asarray(got), np.array(want, dtype=object),
               "affinity is the proportion of states in which two points "
               "share the component")


LOGS = dict(halflogs=False, track=True, logcmp=True)


def DEEP(c):
    return dict(tier="thorough", budget=600) if c else {}


for D, k, T, m, form, full in (
        (1, 1, 1, 2, "array", None), (1, 2, 1, 1, "array", True),
        (1, 2, 1, 2, "array", None), (1, 2, 1, 2, "array", True),
        (1, 2, 1, 2, "list", False), (1, 2, 1, 2, "flat", True),
        (1, 2, 1, 1, "fitted", True), (1, 1, 2, 1, "array", True),
        (2, 2, 1, 1, "array", True), (2, 2, 1, 2, "array", None),
        (1, 3, 1, 1, "array", True), (1, 3, 1, 2, "array", None),
        (2, 1, 1, 2, "fitted", True), (1, 2, 2, 1, "array", True)):
    case("C19", f"cluster-{D}-{k}-{T}-{m}-{form}-{full}",
         f"dimension {D}, {k} weights, {T} iterations, {m} points ({form}), "
         f"full={full}", D=D, k=k, T=T, m=m, form=form, full=full,
         branch_ms=500, maxdraws=400, **LOGS, **DEEP(k == 3 and m == 2))(cluster)
for D, k, T, m, form, ncl in (
        (1, 1, 1, 2, "array", None), (1, 2, 1, 1, "array", None),
        (1, 2, 1, 2, "array", None), (1, 2, 2, 2, "array", None),
        (1, 2, 1, 2, "list", None), (1, 2, 1, 2, "flat", None),
        (2, 2, 1, 2, "array", None), (1, 1, 2, 2, "fitted", None),
        (1, 3, 1, 2, "array", None), (1, 2, 1, 2, "array", 2),
        (1, 1, 2, 2, "fitted", 2), (1, 2, 3, 2, "array", None)):
    case("C19", f"affinity-{D}-{k}-{T}-{m}-{form}-{ncl}",
         f"dimension {D}, {k} weights, {T} iterations, {m} points ({form})"
         + (f", {ncl} clusters" if ncl else ""), D=D, k=k, T=T, m=m,
         form=form, ncl=ncl, branch_ms=500, maxdraws=400, **LOGS,
         **DEEP(T > 2 or (k, m) == (3, 2) or (k, T, m) == (2, 2, 2)))(affinity)
for T, burn, sub, form in ((3, 1, 1, "array"), (3, 0, 2, "array"),
                           (4, 1, 2, "fitted"), (2, 1, 1, "fitted")):
    case("C19", f"affinity-saved-{T}-{burn}-{sub}-{form}",
         f"{T} iterations, {burn} burn-in, saved every {sub} ({form})",
         D=1, k=1, T=T, m=2, form=form, burn=burn, sub=sub, branch_ms=500,
         maxdraws=400, **LOGS)(affinity)
for name, T, form, path, fixed in (
        ("pair", 1, "list", [[0, 1]], [.5, .4]),
        ("pair-fitted", 2, "fitted", [[0, 1], [1, 1]], [.5, .4]),
        ("three-fitted", 1, "fitted", [[0, 1, 0]], [.5, .4])):
    n = len(path[0])
    case("C19", f"affinity-path-{name}", f"{n} observations fitted and as "
         f"many points ({form}), weights {fixed}, groups {path} at the start "
         "of the iterations, everything else symbolic", D=1, k=2, T=T, m=n,
         form=form, path=path, fixed=fixed, branch_ms=500, maxdraws=400, **LOGS,
         budget=300)(affinity)
