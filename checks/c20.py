"""C20: variational updates of responsibilities, weights and atoms"""
import numpy as np
from symx.harness import case
from checks import _mix


def fit(ctx, m, ys, **kw):
    if hasattr(m, "_calc_elbo"):
        # only decides when to stop (C21): not expanded here
        values = iter(range(100))
        m._calc_elbo = lambda: next(values)
    m.fit_variational(ctx.arr(ys), **kw)


def run(ctx, ys, kw, k, total, how):
    wm = _mix.stub(ctx, k)
    m = _mix.mixture(ctx, wm, total_iter=total, **kw)
    fit(ctx, m, ys, n_groups=k, init_method=how, tol=-1)
    return m, wm


def atoms(ctx, m, pr, ys, k, D):
    R = m.var_d
    ctx.check(len(m.var_theta) == k, "an atom for every component")
    for j in range(k):
        mu, lam, W, nu = m.var_theta[j]
        q = _mix.nw_posterior(ctx, pr, ys, list(R[j]), D)
        ctx.eq_all(list(mu), q.mu, "centre of the atoms given the "
                   "responsibilities")
        ctx.eq(lam, q.lam, "precision factor given the responsibilities")
        ctx.eq(nu, q.nu, "degrees of freedom given the responsibilities")
        _mix.inverse_of(ctx, np.atleast_2d(W), q.inv,
                        "scale matrix given the responsibilities")


def updates(ctx, n, D, k, total, how):
    kw, pr = _mix.priors(ctx, D)
    ys = _mix.data(ctx, n, D)
    _mix.var_stub(ctx, k)
    m, wm = run(ctx, ys, kw, k, total, how)
    R = m.var_d
    ctx.check(np.shape(R) == (k, n), "a responsibility for every component "
              "and observation")
    for i in range(n):
        ctx.eq(ctx.sum(R[j][i] for j in range(k)), 1,
               "responsibilities of an observation sum to one")
        for j in range(k):
            ctx.le(0, R[j][i], "responsibilities are not negative")
    ctx.eq_all(wm.var_fits[-1], R,
               "weights are fitted to the latest responsibilities")
    atoms(ctx, m, pr, ys, k, D)
    # responsibilities come from the atoms of the previous iteration
    if total > 1:
        prev = run(ctx, ys, kw, k, total - 1, how)[0].var_theta
    elif how == "kmeans":
        lab = ctx.world.kmeans_calls[-1][2]
        ctx.check(len(wm.var_fits) >= 2, "weights fitted at the start")
        d = _mix.size_biased(ctx, [int(x) for x in lab])
        prev = []
        for j in range(k):
            q = _mix.nw_posterior(ctx, pr, ys, [int(x == j) for x in d], D)
            prev.append((q.mu, q.lam, ctx.inv(q.inv), q.nu))
    else:
        # drawn from the prior
        iw = ctx.draws("invwishart")
        mv = [v for v in ctx.draws() if v.kind in ("mvn", "normal")]
        ctx.check(len(iw) == k, "an atom drawn for every component")
        prev = []
        for j in range(k):
            sig = [list(np.atleast_1d(r)) for r in np.atleast_2d(iw[j].value)]
            mu = list(np.atleast_1d(mv[j].value))
            _mix.check_atom(ctx, (np.array(mu, dtype=object),
                                  np.array(sig, dtype=object)), pr, D,
                            "initial atom")
            prev.append((mu, pr.lam, ctx.inv(sig), pr.nu))
    want = _mix.resp(ctx, ys, prev, ctx.vlog)
    for i in range(n):
        for j in range(k):
            ctx.eq(R[j][i], want[i][j], "responsibility is the normalised "
                   "exponential of the expected log density and weight")


def step(ctx, n, D, k, total, fixed):
    """one more iteration from arbitrary atoms (a warm start)"""
    if fixed:
        pr = _mix.P(mu=[0] * D, lam=1, nu=D,
                    psi=[[int(a == b) for b in range(D)] for a in range(D)])
        kw = dict(mu_prior=ctx.arr(pr.mu), lambda_prior=1, nu_prior=D,
                  psi_prior=ctx.arr(pr.psi))
    else:
        kw, pr = _mix.priors(ctx, D)
    ys = _mix.data(ctx, n, D)
    _mix.var_stub(ctx, k)
    wm = _mix.stub(ctx, k)
    m = _mix.mixture(ctx, wm, total_iter=total, **kw)
    m.var_k = k
    start = []
    for j in range(k):
        start.append([[ctx.real(f"m{j}_{t}") for t in range(D)],
                      ctx.pos(f"l{j}"), _mix.posdef(ctx, f"W{j}", D),
                      ctx.real(f"v{j}", D - 1)])
    m.var_theta = [[ctx.arr(a), b, ctx.arr(c), d] for a, b, c, d in start]
    m.var_d = ctx.arr([[1 / k] * n for _ in range(k)])
    wm.fit_variational(m.var_d)
    fit(ctx, m, ys, warm_start=True, tol=-1)
    R = m.var_d
    ctx.check(np.shape(R) == (k, n), "a responsibility for every component "
              "and observation")
    if total == 1:
        want = _mix.resp(ctx, ys, start, ctx.vlog)
        for i in range(n):
            for j in range(k):
                ctx.eq(R[j][i], want[i][j], "responsibility is the "
                       "normalised exponential of the expected log density "
                       "and weight")
    atoms(ctx, m, pr, ys, k, D)
    ctx.eq_all(wm.var_fits[-1], R,
               "weights are fitted to the latest responsibilities")


for n, D, k, total, how, tier in (
        (1, 1, 1, 1, "kmeans", "quick"), (2, 1, 1, 1, "kmeans", "quick"),
        (2, 1, 2, 1, "kmeans", "quick"), (3, 1, 2, 1, "kmeans", "thorough"),
        (1, 2, 1, 1, "kmeans", "quick"), (2, 2, 1, 1, "kmeans", "quick"),
        (1, 1, 2, 1, "random", "quick"), (2, 1, 2, 1, "random", "quick"),
        (1, 2, 2, 1, "random", "quick"), (1, 1, 1, 2, "kmeans", "quick"),
        (2, 1, 1, 2, "kmeans", "quick"), (1, 1, 2, 2, "random", "quick"),
        (2, 1, 2, 2, "kmeans", "thorough"), (3, 1, 3, 1, "kmeans", "thorough"),
        (1, 1, 3, 1, "random", "quick"), (2, 3, 1, 1, "kmeans", "thorough"),
        (2, 2, 2, 1, "kmeans", "thorough"),
        (1, 2, 2, 2, "random", "thorough")):
    case("C20", f"{n}-{D}-{k}-{total}-{how}", f"{n} observations of dimension "
         f"{D}, {k} components, {total} iterations, {how} start", n=n, D=D,
         k=k, total=total, how=how, branch_ms=500, maxdraws=400, tier=tier,
         budget=600 if tier == "thorough" else 60,
         halflogs=False, track=True)(updates)
for n, D, k, fixed, tier in (
        (1, 1, 2, 0, "quick"), (2, 1, 2, 0, "quick"), (1, 1, 3, 0, "quick"),
        (1, 2, 2, 1, "quick"), (2, 2, 1, 0, "quick"), (2, 2, 2, 1, "quick"),
        (2, 2, 2, 0, "thorough"), (3, 1, 2, 0, "quick"),
        (2, 1, 3, 0, "thorough"), (1, 3, 1, 1, "quick"),
        (3, 2, 2, 1, "thorough"), (2, 1, 3, 1, "quick"),
        (4, 1, 3, 1, "thorough"), (2, 1, 4, 1, "thorough")):
    case("C20", f"step-{n}-{D}-{k}-{fixed}", f"{n} observations of dimension "
         f"{D}, {k} arbitrary components, one iteration, "
         + ("unit" if fixed else "symbolic") + " priors", n=n, D=D, k=k,
         total=1, fixed=fixed, branch_ms=500, maxdraws=400, tier=tier,
         budget=600 if tier == "thorough" else 60, halflogs=False,
         track=True)(step)
