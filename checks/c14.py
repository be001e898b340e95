"""C14: Gibbs sampler: atoms given the groups"""
from symx.harness import case
from checks import _mix


def defaults(ctx, ys, D):
    n = len(ys)
    m = _mix.mean(ctx, ys, D)
    psi = [[ctx.sum((y[a] - m[a]) * (y[b] - m[b]) for y in ys) / (n - 1)
            for b in range(D)] for a in range(D)]
    ctx.assume(psi[0][0] > 0)
    if D > 1:
        ctx.assume(ctx.det(psi) > 0)
    return _mix.P(mu=m, lam=1, psi=psi, nu=D)


def atoms(ctx, n, D, k, iters, how="kmeans", default=False,
          path=None, fixed=None):
    kw, pr = _mix.priors(ctx, D)
    ys = _mix.data(ctx, n, D)
    if default:
        kw, pr = {}, defaults(ctx, ys, D)
    wm = _mix.stub(ctx, k, fixed=fixed, path=path, flat=bool(path))
    m = _mix.mixture(ctx, wm, total_iter=iters, **kw)
    m.fit_gibbs(ctx.arr(ys), init_groups=k, init_method=how,
                show_progress=False)
    states = m.get_sim_params()
    ctx.check(len(states) == iters, "one state per iteration")
    ctx.check(len(wm.fits) >= iters, "weights fitted at every iteration")
    laws = []
    fits = wm.fits[-iters:]
    for t in range(iters):
        d = [int(x) for x in fits[t]]
        th = states[t]["theta"]
        for j in range(k):
            rows = [y for y, x in zip(ys, d) if x == j]
            if rows:
                laws += _mix.check_atom(
                    ctx, th[j], _mix.niw_posterior(ctx, pr, rows, D), D,
                    "atom of an occupied group")
            elif t == 0:
                laws += _mix.check_atom(ctx, th[j], pr, D,
                                        "atom of an empty group")
    ctx.distinct([x for x in laws if x.kind == "invwishart"],
                 "covariances are separate draws")
    ctx.distinct([x for x in laws if x.kind != "invwishart"],
                 "means are separate draws")
    for t in range(1, iters):
        ctx.eq_all(states[t - 1]["d"], fits[t],
                   "the groups of the next update are those last saved")


for n, D, k, iters, how, default in (
        (1, 1, 1, 1, "kmeans", False), (2, 1, 1, 1, "kmeans", False),
        (2, 1, 2, 1, "kmeans", False), (3, 1, 2, 1, "kmeans", False),
        (2, 1, 2, 1, "random", False), (1, 1, 2, 2, "random", False),
        (2, 1, 2, 2, "kmeans", False), (1, 2, 2, 1, "random", False),
        (2, 2, 1, 1, "kmeans", False),
        (2, 2, 2, 1, "kmeans", False), (3, 2, 2, 1, "kmeans", False),
        (2, 3, 1, 1, "kmeans", False), (2, 1, 2, 1, "kmeans", True),
        (3, 2, 1, 1, "kmeans", True), (3, 2, 2, 1, "kmeans", True),
        (3, 1, 3, 1, "kmeans", False)):
    case("C14", f"{n}-{D}-{k}-{iters}-{how}{'-data' if default else ''}",
         f"{n} observations of dimension {D}, {k} weights, {iters} "
         f"iterations, {how} start, priors "
         + ("from the data" if default else "symbolic"),
         n=n, D=D, k=k, iters=iters, how=how, default=default,
         tier="thorough" if (n, k) == (3, 3) or (n, iters) == (2, 2)
         else "quick",
         budget=800 if (n, k) == (3, 3) or (n, iters) == (2, 2) else 300, branch_ms=500, maxdraws=400
         )(atoms)


# larger runs along given groups: equal weights, every other choice symbolic
for name, D, k, path, tier in (
        ("singles", 1, 3, [[0, 1, 2]] * 2, "quick"),
        ("gap", 1, 3, [[0, 1, 0], [2, 0, 2]], "quick"),
        ("swap", 1, 3, [[0, 1, 2], [2, 1, 2]], "quick"),
        ("pairs", 2, 4, [[0, 0, 1, 2]], "quick"),
        ("four", 1, 4, [[0, 1, 2, 3]], "quick"),
        ("five", 2, 3, [[0, 1, 0, 2, 1]], "quick"),
        ("again", 1, 2, [[0, 1], [1, 1], [1, 0]], "thorough"),
        ("four-twice", 1, 4, [[0, 1, 2, 3]] * 2, "thorough"),
        ("plane", 2, 3, [[0, 1, 2]] * 2, "thorough")):
    n = len(path[0])
    case("C14", f"path-{name}", f"{n} observations of dimension {D}, {k} "
         f"equal weights of total 0.9, groups {path} at the {len(path)} "
         "iterations, slices increasing with the observation, one state of "
         "positive likelihood, everything else symbolic", n=n, D=D, k=k, iters=len(path),
         path=path, fixed=[0.9 / k] * k, tier=tier,
         budget=800 if tier == "thorough" else 120, branch_ms=500,
         maxdraws=400)(atoms)
