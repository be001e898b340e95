"""C23: variational clusters, uncertainty and affinity"""
import numpy as np
from symx.harness import case
from checks import _mix


def state(ctx, D, k, m, form):
    n = m if form in ("fitted", "list") or D == 2 else 1
    mix, wm, ys, R, th = _mix.var_state(ctx, n, D, k)
    if form == "fitted":
        return mix, ys, None, [[R[j][i] for j in range(k)] for i in range(m)]
    xs = _mix.data(ctx, m, D, "x")
    arg = [list(x) for x in xs] if form == "list" else \
        ctx.arr([x[0] for x in xs]) if form == "flat" else ctx.arr(xs)
    return mix, xs, arg, None if k < 1 else (th,)


def probs(ctx, xs, R):
    if isinstance(R, tuple):
        return _mix.resp(ctx, xs, R[0], ctx.vlog)
    return R


def cluster(ctx, D, k, m, form, full):
    mix, xs, arg, R = state(ctx, D, k, m, form)
    got = mix.var_map_cluster(arg, full=full) if full is not None else \
        mix.var_map_cluster(arg)
    want = probs(ctx, xs, R)
    lab = got
    if full:
        ctx.check(len(got) == 2, "clusters and uncertainties")
        lab, unc = got
        ctx.check(np.shape(unc) == (len(xs),), "one uncertainty per point")
    ctx.check(np.shape(lab) == (len(xs),), "one cluster per point")
    for i in range(len(xs)):
        c = int(lab[i])
        ctx.check(0 <= c < k, "cluster is a component")
        for j in range(k):
            if j != c:
                ctx.le(want[i][j], want[i][c],
                       "cluster is the most probable component")
        if full:
            ctx.eq(unc[i], 1 - want[i][c], "uncertainty is one minus the "
                   "probability of the cluster")


def affinity(ctx, D, k, m, form, ncl=None):
    mix, xs, arg, R = state(ctx, D, k, m, form)
    if ncl is None:
        got = mix.var_eap_affinity_matrix(arg)
    else:
        labels = mix.var_eap_spectral_consensus_cluster(arg, n_clusters=ncl)
        got, c, how, out = ctx.world.spectral[-1]
        ctx.check(c == ncl and how == "precomputed",
                  "spectral clustering of a given affinity")
        ctx.eq_all(labels, out, "the consensus labels are returned")
    want = probs(ctx, xs, R)
    ctx.check(np.shape(got) == (m, m), "square affinity")
    got = np.asarray(got)
    for a in range(m):
        for b in range(m):
            if a != b:
                ctx.eq(got[a, b], ctx.sum(want[a][j] * want[b][j]
                                          for j in range(k)),
                       "affinity is the probability that two points share "
                       "the component")


for D, k, m, form, full, tier in (
        (1, 1, 1, "array", True, "quick"), (1, 2, 1, "array", True, "quick"),
        (1, 2, 1, "array", None, "quick"), (1, 2, 2, "array", True, "quick"),
        (1, 3, 1, "array", True, "quick"), (2, 2, 1, "array", True, "quick"),
        (2, 2, 1, "array", False, "quick"), (1, 2, 2, "list", True, "quick"),
        (1, 2, 2, "flat", True, "quick"), (1, 2, 2, "fitted", True, "quick"),
        (1, 3, 2, "fitted", True, "quick"), (1, 2, 3, "fitted", None, "quick"),
        (2, 2, 2, "fitted", False, "quick"), (3, 2, 1, "array", True, "quick"),
        (2, 2, 2, "array", True, "thorough"),
        (1, 3, 2, "array", True, "thorough")):
    case("C23", f"cluster-{D}-{k}-{m}-{form}-{full}", f"dimension {D}, {k} "
         f"arbitrary components, {m} points ({form}), full={full}", D=D, k=k,
         m=m, form=form, full=full, branch_ms=500, maxdraws=400, tier=tier,
         track=True, halflogs=False)(cluster)
for D, k, m, form, ncl, tier in (
        (1, 1, 2, "array", None, "quick"), (1, 2, 2, "array", None, "quick"),
        (1, 2, 2, "list", None, "quick"), (1, 2, 2, "flat", None, "quick"),
        (1, 2, 2, "fitted", None, "quick"), (1, 3, 2, "fitted", None, "quick"),
        (2, 2, 2, "fitted", None, "quick"), (1, 2, 3, "fitted", None, "quick"),
        (2, 2, 2, "array", None, "quick"), (1, 2, 2, "fitted", 2, "quick"),
        (1, 2, 2, "array", 2, "quick"), (1, 3, 2, "array", None, "thorough"),
        (1, 2, 3, "array", None, "thorough"),
        (3, 2, 2, "array", None, "thorough")):
    case("C23", f"affinity-{D}-{k}-{m}-{form}-{ncl}", f"dimension {D}, {k} "
         f"arbitrary components, {m} points ({form})"
         + (f", {ncl} clusters" if ncl else ""), D=D, k=k, m=m, form=form,
         ncl=ncl, branch_ms=500, maxdraws=400, tier=tier,
         track=True, halflogs=False)(affinity)
