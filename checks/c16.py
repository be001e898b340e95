"""C16: Gibbs sampler: maximum a posteriori state"""
from symx.harness import case
from checks import _mix


def track(ctx, n, D, k, total, burn, how, warm=0, path=None, fixed=None):
    kw, pr = _mix.priors(ctx, D)
    ys = _mix.data(ctx, n, D)
    wm = _mix.stub(ctx, k, path=path, fixed=fixed)
    m = _mix.mixture(ctx, wm, total_iter=total, burn_in=burn, **kw)
    m.fit_gibbs(ctx.arr(ys), init_groups=k, init_method=how,
                show_progress=False)
    for _ in range(warm):
        m.fit_gibbs(ctx.arr(ys), warm_start=True, show_progress=False)
    best = _mix.state(m.map_sim_params)
    ll = {}

    def lik(s):
        return _mix.loglik(ctx, ys, s.d, s.w, s.theta)
    top = lik(best)
    ctx.eq(m.map_log_likelihood, top,
           "reported likelihood is that of the kept state")
    saved = [_mix.state(s) for s in m.get_sim_params()]
    seen = wm.visited + saved
    if burn and not warm:
        # the same chain with every state saved
        w2 = _mix.stub(ctx, k, twin=wm, path=path, fixed=fixed)
        m2 = _mix.mixture(ctx, w2, total_iter=total, burn_in=0, **kw)
        m2.fit_gibbs(ctx.arr(ys), init_groups=k, init_method=how,
                     show_progress=False)
        twin = [_mix.state(s) for s in m2.get_sim_params()]
        ctx.check(len(twin) == total, "every state is saved")
        ctx.check(all(_mix.same_state(ctx, a, b)
                      for a, b in zip(saved, twin[burn:])),
                  "the burn-in only discards states")
        seen += twin
    for s in seen:
        ctx.le(lik(s), top, "no visited state has a greater likelihood",
               tol=1e-9)
    if len(wm.visited) >= 1 + total:
        ctx.check(any(_mix.same_state(ctx, s, best) for s in wm.visited),
                  "the kept state is one of those visited, unchanged")


def initial(ctx, n, D, k, total, burn, how, path=None, fixed=None):
    """every later state has likelihood zero"""
    kw, pr = _mix.priors(ctx, D)
    ys = _mix.data(ctx, n, D)
    wm = _mix.stub(ctx, k, path=path, fixed=fixed, flat=True)
    m = _mix.mixture(ctx, wm, total_iter=total, burn_in=burn, **kw)
    m.fit_gibbs(ctx.arr(ys), init_groups=k, init_method=how,
                show_progress=False)
    best = _mix.state(m.map_sim_params)
    ctx.check(best.d == [int(x) for x in wm.fits[0]],
              "the groups kept are the initial ones")
    ctx.check(len(best.w) == len(wm.start), "as many weights as initially")
    ctx.eq_all(best.w, wm.start, "the weights kept are the initial ones")
    ctx.eq(m.map_log_likelihood,
           _mix.loglik(ctx, ys, best.d, best.w, best.theta),
           "the likelihood kept is that of the initial state")


for n, D, k, total, burn, how in (
        (1, 1, 1, 1, 0, "kmeans"), (1, 1, 2, 1, 0, "random"),
        (2, 1, 2, 1, 0, "kmeans"), (1, 1, 1, 3, 2, "random"),
        (1, 2, 1, 2, 1, "kmeans"), (1, 1, 2, 2, 0, "random")):
    case("C16", f"initial-{n}-{D}-{k}-{total}-{burn}-{how}",
         f"{n} observations of dimension {D}, {k} weights, {total} iterations "
         f"({burn} burn-in), {how} start, states after the first fit of "
         "likelihood zero", n=n, D=D, k=k, total=total, burn=burn, how=how,
         branch_ms=500, maxdraws=400, budget=120)(initial)


for n, D, k, total, burn, how, warm, tier in (
        (1, 1, 1, 1, 0, "kmeans", 0, "quick"),
        (1, 1, 1, 2, 0, "kmeans", 0, "quick"),
        (1, 1, 1, 2, 1, "kmeans", 0, "quick"),
        (1, 1, 1, 3, 2, "kmeans", 0, "quick"),
        (1, 1, 2, 1, 0, "random", 0, "quick"),
        (1, 2, 1, 1, 0, "random", 0, "quick"),
        (2, 1, 1, 1, 0, "kmeans", 0, "quick"),
        (2, 1, 1, 2, 1, "kmeans", 0, "quick"),
        (2, 1, 2, 1, 0, "kmeans", 0, "quick"),
        (1, 1, 1, 1, 0, "kmeans", 1, "quick"),
        (1, 1, 1, 2, 1, "kmeans", 1, "quick"),
        (1, 1, 2, 2, 1, "random", 0, "quick"),
        (2, 2, 1, 2, 0, "kmeans", 0, "thorough"),
        (1, 1, 2, 3, 1, "random", 0, "thorough"),
        (2, 1, 2, 2, 1, "kmeans", 0, "thorough")):
    case("C16", f"{n}-{D}-{k}-{total}-{burn}-{how}-{warm}",
         f"{n} observations of dimension {D}, {k} weights, {total} iterations "
         f"({burn} burn-in), {how} start, {warm} warm restarts",
         n=n, D=D, k=k, total=total, burn=burn, how=how, warm=warm, tier=tier,
         branch_ms=500, maxdraws=400, budget=600 if tier == "thorough" else 300)(track)


for name, D, fixed, path, total, burn, tier in (
        ("three", 1, [.5, .3, .1], [[0, 1, 2]], 1, 0, "quick"),
        ("four", 1, [.4, .3, .2], [[0, 1, 0, 2]], 1, 0, "quick"),
        ("plane", 2, [.4, .2, .3], [[0, 1, 2]], 1, 0, "thorough"),
        ("later", 1, [.3, .3, .3], [[0, 1, 2], [2, 1, 2]], 2, 0, "thorough"),
        ("burn", 1, [.3, .3, .3], [[0, 1, 2], [2, 1, 2]], 2, 1, "thorough")):
    n, k = len(path[0]), len(fixed)
    case("C16", f"path-{name}", f"{n} observations of dimension {D}, weights "
         f"{fixed}, groups {path} at the {len(path)} iterations ({burn} "
         "burn-in), slices in increasing parts of their range, everything "
         "else symbolic", n=n, D=D, k=k, total=total, burn=burn,
         how="kmeans", path=path, fixed=fixed, tier=tier, branch_ms=500,
         maxdraws=400, budget=800 if tier == "thorough" else 300)(track)
