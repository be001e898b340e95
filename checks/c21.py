"""C21: evidence lower bound and convergence of the variational fit"""
import numpy as np
from symx.harness import case
from checks import _mix


def log_b(ctx, W, nu):
    """log normalising constant of the Wishart density"""
    D = len(W)
    return -nu * ctx.log(ctx.det(W)) / 2 - nu * D * ctx.log(2) / 2 \
        - D * (D - 1) * ctx.log(ctx.pi) / 4 \
        - ctx.sum(ctx.lgamma((nu - t) / 2) for t in range(D))


def elbo(ctx, pr, ys, R, thetas, vlog, vlp, vlq):
    D = len(pr.mu)
    l2p = ctx.log(2 * ctx.pi)
    out = vlp - vlq
    for j, (m, lam, W, nu) in enumerate(thetas):
        el = _mix.elogdet(ctx, W, nu)
        for i, y in enumerate(ys):
            d = [y[t] - m[t] for t in range(D)]
            r = R[j][i]
            out = out + r * (el / 2 - D * l2p / 2 - D / (2 * lam)
                             - nu * ctx.quad(d, W) / 2 + vlog[j]
                             - ctx.log(r))
        c = [m[t] - pr.mu[t] for t in range(D)]
        # prior of the atom
        out = out + (D * (ctx.log(pr.lam) - l2p) + el - D * pr.lam / lam
                     - pr.lam * nu * ctx.quad(c, W)) / 2
        out = out + log_b(ctx, ctx.inv(pr.psi), pr.nu) \
            + (pr.nu - D - 1) * el / 2 - nu * ctx.sum(
                pr.psi[a][b] * W[b][a] for a in range(D)
                for b in range(D)) / 2
        # variational law of the atom
        out = out - (el / 2 + D * (ctx.log(lam) - l2p) / 2 - D / 2)
        out = out - (log_b(ctx, W, nu) + (nu - D - 1) * el / 2 - nu * D / 2)
    return out


def value(ctx, n, D, k, fixed):
    if fixed:
        pr = _mix.P(mu=[0] * D, lam=1, nu=D,
                    psi=[[int(a == b) for b in range(D)] for a in range(D)])
        kw = dict(mu_prior=ctx.arr(pr.mu), lambda_prior=1, nu_prior=D,
                  psi_prior=ctx.arr(pr.psi))
    else:
        kw, pr = _mix.priors(ctx, D)
    ys = _mix.data(ctx, n, D)
    _mix.var_stub(ctx, k)
    wm = _mix.stub(ctx, k)
    m = _mix.mixture(ctx, wm, total_iter=1, **kw)
    if not hasattr(m, "_calc_elbo"):
        return
    # the state is replaced by an arbitrary one after a first fit
    real = m._calc_elbo
    m._calc_elbo = lambda: 0
    m.fit_variational(ctx.arr(ys), n_groups=1 if k == 1 else k,
                      init_method="random", tol=-1)
    cols = [_mix.simplex(ctx, f"r{i}_", k) for i in range(n)]
    R = [[cols[i][j] for i in range(n)] for j in range(k)]
    th = []
    for j in range(k):
        th.append([[ctx.real(f"m{j}_{t}") for t in range(D)],
                   ctx.pos(f"l{j}"), _mix.posdef(ctx, f"W{j}", D),
                   ctx.real(f"v{j}", D - 1)])
    m.var_theta = [[ctx.arr(a), b, ctx.arr(c), d] for a, b, c, d in th]
    m.var_d = ctx.arr(R)
    wm.fit_variational(m.var_d)
    ctx.eq(real(), elbo(ctx, pr, ys, R, th, ctx.vlog, ctx.vlp, ctx.vlq),
              "evidence lower bound")


def loop(ctx, total, burn, sub):
    """the number of iterations given the bounds reached"""
    ys = _mix.data(ctx, 1, 1)
    kw, pr = _mix.priors(ctx, 1)
    _mix.var_stub(ctx, 1)
    wm = _mix.stub(ctx, 1)
    m = _mix.mixture(ctx, wm, total_iter=total, burn_in=burn,
                     subsample_steps=sub, **kw)
    if not hasattr(m, "_calc_elbo"):
        return
    e = [ctx.real(f"elbo{t}") for t in range(total)]
    tol = ctx.pos("tol")
    values = iter(e)
    m._calc_elbo = lambda: next(values)
    m.fit_variational(ctx.arr(ys), n_groups=1, init_method="random", tol=tol)
    ran = len(wm.var_fits) - 1
    ctx.check(1 <= ran <= total, "at most total_iter iterations")
    d = [abs(e[t] - e[t - 1]) for t in range(1, ran)]
    for v in d[:-1]:
        ctx.le(tol, v, "goes on while the bound changes")
    if ran < total:
        ctx.check(len(d) > 0, "two bounds to compare")
        ctx.le(d[-1], tol, "stops early only once the change is small")
    if d:
        ctx.check(bool(m.var_converged) == bool(d[-1] <= tol),
                  "convergence flag")
    else:
        ctx.check(not m.var_converged, "one iteration does not converge")
    ctx.check(bool(m.var_fitted), "fitted")


def fixpoint(ctx, n, D, total, how):
    """one component: the second iteration changes nothing"""
    ys = _mix.data(ctx, n, D)
    kw, pr = _mix.priors(ctx, D)
    _mix.var_stub(ctx, 1)
    wm = _mix.stub(ctx, 1)
    m = _mix.mixture(ctx, wm, total_iter=total, **kw)
    ctx.check(not m.var_converged and not m.var_fitted, "nothing fitted yet")
    m.fit_variational(ctx.arr(ys), n_groups=1, init_method=how)
    ctx.check(bool(m.var_fitted), "fitted")
    ctx.check(bool(m.var_converged) == (total > 1), "convergence flag")
    base = 1 if how == "random" else 2
    ctx.check(len(wm.var_fits) == base + min(total, 2),
              "stops once the bound no longer changes")
    # the flag is that of the last fit
    m.total_iter = 1
    m.fit_variational(ctx.arr(ys), n_groups=1, init_method=how)
    ctx.check(not m.var_converged, "a fit cut short has not converged")


for n, D, k, fixed, tier in (
        (1, 1, 1, 0, "quick"), (2, 1, 1, 0, "quick"), (1, 1, 2, 0, "quick"),
        (2, 1, 2, 0, "quick"), (1, 2, 1, 0, "quick"), (1, 2, 2, 1, "quick"),
        (2, 2, 1, 1, "quick"), (3, 1, 2, 0, "quick"),
        (2, 2, 2, 0, "thorough"), (1, 3, 1, 1, "quick"),
        (2, 1, 3, 0, "thorough"), (3, 2, 2, 1, "thorough")):
    case("C21", f"value-{n}-{D}-{k}-{fixed}", f"{n} observations of dimension "
         f"{D}, {k} components in an arbitrary state", n=n, D=D, k=k,
         fixed=fixed, branch_ms=500, maxdraws=400, tier=tier,
         budget=600 if tier == "thorough" else 60, halflogs=False,
         track=True)(value)
for total, burn, sub in ((1, 0, 1), (2, 0, 1), (3, 0, 1), (4, 0, 1),
                         (3, 2, 1), (4, 1, 2), (4, 0, 3)):
    case("C21", f"loop-{total}-{burn}-{sub}", f"at most {total} iterations "
         f"with arbitrary bounds (burn_in {burn}, subsample_steps {sub} of "
         "the sampler)", total=total, burn=burn, sub=sub,
         maxdraws=400)(loop)
for n, D, total, how in ((1, 1, 1, "random"), (1, 1, 4, "random"),
                         (2, 1, 3, "random"), (1, 1, 3, "kmeans"),
                         (1, 2, 2, "random"), (2, 1, 2, "kmeans")):
    case("C21", f"fixpoint-{n}-{D}-{total}-{how}", f"{n} observations of "
         f"dimension {D}, one component, at most {total} iterations, {how} "
         "start", n=n, D=D, total=total, how=how, branch_ms=500,
         maxdraws=400, halflogs=False, track=True)(fixpoint)
