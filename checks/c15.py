"""C15: Gibbs sampler: slice variables, tail and assignment of observations"""
from symx.harness import case
from checks import _mix


def step(ctx, n, D, k, iters=1, grow=0, how="kmeans", total=None, path=None,
         fixed=None):
    kw, pr = _mix.priors(ctx, D)
    ys = _mix.data(ctx, n, D)
    wm = _mix.stub(ctx, k, grow=grow, total=total, path=path, fixed=fixed,
                   flat=bool(path))
    m = _mix.mixture(ctx, wm, total_iter=iters, **kw)
    m.fit_gibbs(ctx.arr(ys), init_groups=k, init_method=how,
                show_progress=False)
    s = m.get_sim_params()[-1]
    d0 = [int(x) for x in wm.fits[-1]]
    w0 = wm.hist[-1]
    u = list(s["u"])
    ctx.check(len(u) == n, "one slice variable per observation")
    laws = []
    for i in range(n):
        q, top = ctx.law(u[i]), w0[d0[i]]
        if q is None or q.kind != "uniform" or not ctx.same(q.high, top):
            r = ctx.law(u[i] / w0[d0[i]])    # a scaled standard uniform
            if r is not None and r.kind == "uniform" and \
                    ctx.same(r.high, 1):
                q, top = r, 1
        if q is None or q.kind != "uniform":
            ctx.fail("slice variable is a uniform draw")
            return
        ctx.eq(q.low, 0, "slice variable starts at zero")
        ctx.eq(q.high, top, "slice variable ends at the weight of the group")
        laws.append(q)
    ctx.distinct(laws, "slice variables are separate draws")
    x, size = wm.tails[-1]
    near = [ctx.same(x, 1 - v) for v in u]
    ctx.check(any(near), "mass to cover is one minus a slice variable")
    for v in u:
        ctx.le(1 - v, x, "mass to cover is one minus the least slice variable",
               tol=1e-9)
    w = list(s["w"])
    ctx.check(len(w) == k + grow, "the extended weights are used")
    d = [int(j) for j in s["d"]]
    ctx.check(len(d) == n, "one group per observation")
    score = []
    cands = []
    for i in range(n):
        ctx.check(w[d[i]] > u[i],
                  "the weight of the new group exceeds the slice variable")
        js = [j for j in range(len(w)) if j != d[i] and bool(w[j] > u[i])]
        cands.append(js)
    gs = _mix.noises(ctx, len(w), n)
    if not gs:
        ctx.check(all(not js for js in cands), "assignment is random")
        return
    lp = [[_mix.logpdf(ctx, ys[i], s["theta"][j])
           if j == d[i] or j in cands[i] else None
           for i in range(n)] for j in range(len(w))]

    def goals(g):
        return [lp[d[i]][i] + g[d[i]][i] >= lp[j][i] + g[j][i]
                for i in range(n) for j in cands[i]]
    best = None
    for g in gs:
        if all(ctx.sure(c) for c in goals(g)):
            best = g
            break
    for c in goals(best or gs[0]):
        ctx.check(c, "the new group has the largest perturbed log density "
                  "among the components above the slice")


for n, D, k, iters, grow, how, tier in (
        (1, 1, 1, 1, 0, "kmeans", "quick"), (1, 1, 2, 1, 0, "random", "quick"),
        (1, 1, 3, 1, 0, "random", "quick"), (1, 2, 2, 1, 0, "random", "quick"),
        (2, 1, 2, 1, 0, "kmeans", "quick"), (1, 1, 2, 2, 0, "random", "quick"),
        (1, 1, 1, 1, 1, "kmeans", "quick"), (2, 1, 1, 1, 1, "kmeans", "quick"),
        (2, 1, 2, 1, 0, "random", "quick"), (2, 2, 2, 1, 0, "kmeans", "quick"),
        (2, 1, 3, 1, 0, "kmeans", "thorough"),
        (3, 1, 2, 1, 0, "kmeans", "thorough"),
        (2, 1, 2, 1, 1, "kmeans", "thorough"),
        (2, 1, 2, 2, 0, "kmeans", "thorough")):
    case("C15", f"{n}-{D}-{k}-{iters}-{grow}-{how}", f"{n} observations of "
         f"dimension {D}, {k} weights and {grow} more from the tail, "
         f"{iters} iterations, {how} start", n=n, D=D, k=k, iters=iters,
         grow=grow, how=how, tier=tier, branch_ms=500, maxdraws=400,
         budget=600 if tier == "thorough" else 300)(step)


# weights not covering the whole mass (the rest is beyond the truncation)
for n, D, k, how in ((1, 1, 1, "kmeans"), (1, 1, 2, "random"),
                     (2, 1, 2, "kmeans")):
    case("C15", f"part-{n}-{D}-{k}-{how}", f"{n} observations of dimension "
         f"{D}, {k} weights of total 0.8, {how} start", n=n, D=D, k=k,
         how=how, total=0.8, branch_ms=500, maxdraws=400, budget=120)(step)

for name, D, fixed, path, tier in (
        ("three", 1, [.5, .3, .1], [[0, 1, 2]], "quick"),
        ("three-even", 1, [.3, .3, .3], [[0, 1, 0]], "quick"),
        ("four", 1, [.4, .3, .2], [[0, 1, 0, 2]], "quick"),
        ("plane", 2, [.4, .2, .3], [[0, 1, 2]], "thorough"),
        ("later", 1, [.4, .2, .3], [[0, 1, 2], [2, 0, 2]], "quick"),
        ("four-later", 1, [.4, .3, .2], [[0, 1, 0, 1], [2, 1, 0, 0]],
         "thorough"),
        ("five", 1, [.4, .3, .2], [[0, 1, 0, 2, 1]], "thorough")):
    n, k = len(path[0]), len(fixed)
    case("C15", f"path-{name}", f"{n} observations of dimension {D}, weights "
         f"{fixed}, groups {path} at the {len(path)} iterations, slices in "
         "increasing parts of their range, one state of positive likelihood, "
         "everything else symbolic", n=n, D=D, k=k, iters=len(path),
         path=path, fixed=fixed, tier=tier, branch_ms=500, maxdraws=400,
         budget=800 if tier == "thorough" else 300)(step)
