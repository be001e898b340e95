"""C28: densities, normalising constants and samplers behind the models"""
import numpy as np
from symx.harness import case
from checks import _mix
from checks.c19 import best, prob


def get(ctx, name):
    for mod in ("pyrichlet.utils.functions", "pyrichlet.mixture_models._utils"):
        f = getattr(ctx.load(mod), name, None)
        if f is not None:
            return f
    return None


def lbinom(ctx, n, x):
    return ctx.lgamma(n + 1) - ctx.lgamma(x + 1) - ctx.lgamma(n - x + 1)


def beta(ctx):
    f = get(ctx, "log_likelihood_beta")
    if f is None:
        return
    v, a, b = ctx.real("v", 0, 1), ctx.pos("a"), ctx.pos("b")
    ctx.eq(f(v, a, b), ctx.beta_logpdf(v, a, b), "log beta density")


def meanlog(ctx):
    f = get(ctx, "mean_log_beta")
    if f is None:
        return
    a, b = ctx.pos("a"), ctx.pos("b")
    ctx.eq(f(a, b), ctx.digamma(a) - ctx.digamma(a + b),
           "expected log of a beta variable")


def binom(ctx, n):
    f = get(ctx, "log_likelihood_binom")
    g = get(ctx, "log_likelihood_beta_binom")
    for x in (-1, n + 1, n + 2):
        ctx.check(f(x, n, ctx.real("q", 0, 1)) == -np.inf and
                  g(x, n, ctx.pos("s"), ctx.pos("t")) == -np.inf,
                  "impossible counts have probability zero")
    p, a, b = ctx.real("p", 0, 1), ctx.pos("a"), ctx.pos("b")
    for x in range(n + 1):
        if f is not None:
            ctx.eq(f(x, n, p), lbinom(ctx, n, x) + x * ctx.log(p)
                   + (n - x) * ctx.log(1 - p), "log binomial probability")
        if g is not None:
            ctx.eq(g(x, n, a, b), lbinom(ctx, n, x)
                   + ctx.betaln(x + a, n - x + b) - ctx.betaln(a, b),
                   "log beta binomial probability")


def eppf(ctx, part):
    f = get(ctx, "dirichlet_log_eppf")
    if f is None:
        return
    al = ctx.pos("alpha")
    n, k = sum(part), len(part)
    # seating plan: new tables with weight alpha, old ones with their size
    p, seen = 0, 0
    for c in part:
        for t in range(c):
            p = p + (ctx.log(al) if t == 0 else ctx.log(t)) \
                - ctx.log(al + seen)
            seen += 1
    ctx.eq(f(al, np.array(part)), p, "log probability of a partition")
    if k == 1:
        ctx.eq(f(0, np.array(part)), 0,
               "without new blocks one block is certain")


def student(ctx, D, m):
    f, g = get(ctx, "density_students_t"), get(ctx, "density_normal")
    xs = _mix.data(ctx, m, D, "x")
    mu = [ctx.real(f"m{t}") for t in range(D)]
    prec = _mix.posdef(ctx, "P", D)
    nu = ctx.pos("nu")
    for h in (f, g):
        if h is None:
            continue
        got = h(ctx.arr(xs), ctx.arr(mu), ctx.arr(prec), nu) if h is f else \
            h(ctx.arr(xs), ctx.arr(mu), ctx.arr(prec))
        ctx.check(np.shape(got) == (m,), "a density per point")
        for i, x in enumerate(xs):
            q = ctx.quad([a - b for a, b in zip(x, mu)], prec)
            if h is f:
                want = ctx.lgamma((nu + D) / 2) - ctx.lgamma(nu / 2) \
                    + ctx.log(ctx.det(prec)) / 2 \
                    - D * ctx.log(nu * ctx.pi) / 2 \
                    - (nu + D) * ctx.log(1 + q / nu) / 2
            else:
                want = ctx.log(ctx.det(prec)) / 2 \
                    - D * ctx.log(2 * ctx.pi) / 2 - q / 2
            ctx.eq(ctx.log(got[i]), want, "density of the point")


def wishart(ctx, D):
    W, nu = _mix.posdef(ctx, "W", D), ctx.real("nu", D - 1)
    logb = -nu * ctx.log(ctx.det(W)) / 2 - nu * D * ctx.log(2) / 2 \
        - D * (D - 1) * ctx.log(ctx.pi) / 4 \
        - ctx.sum(ctx.lgamma((nu - t) / 2) for t in range(D))
    el = _mix.elogdet(ctx, W, nu)
    f = get(ctx, "log_wishart_normalization_term")
    if f is not None:
        ctx.eq(f(ctx.arr(W), nu), logb, "log normalising constant")
    f = get(ctx, "e_log_norm_wishart")
    if f is not None:
        ctx.eq(f(ctx.arr(W), nu), el, "expected log determinant")
    f = get(ctx, "entropy_wishart")
    if f is not None:
        ctx.eq(f(ctx.arr(W), nu), -logb - (nu - D - 1) * el / 2 + nu * D / 2,
               "entropy")


def niw(ctx, D, n):
    """posterior, its draws and the prior density"""
    pr = _mix.P(mu=[ctx.real(f"mu{t}") for t in range(D)],
                lam=ctx.pos("lam"), psi=_mix.posdef(ctx, "psi", D),
                nu=ctx.real("nu", D - 1))
    ys = _mix.data(ctx, n, D)
    f = get(ctx, "posterior_norm_invw_params")
    if f is not None:
        r = f(ctx.arr(ys), mu=ctx.arr(pr.mu), lam=pr.lam,
              psi=ctx.arr(pr.psi), nu=pr.nu)
        q = _mix.niw_posterior(ctx, pr, ys, D)
        ctx.eq_all(np.ravel(r["mu"]), q.mu, "posterior centre")
        ctx.eq(r["lambda"], q.lam, "posterior precision factor")
        ctx.eq(r["nu"], q.nu, "posterior degrees of freedom")
        ctx.eq_all(np.ravel(r["psi"]), [v for t in q.psi for v in t],
                   "posterior scale")
    f = get(ctx, "log_likelihood_normal_invw")
    if f is not None:
        S = _mix.posdef(ctx, "S", D)
        m = [ctx.real(f"m{t}") for t in range(D)]
        Si = ctx.inv(S)
        iw = pr.nu * ctx.log(ctx.det(pr.psi)) / 2 \
            - pr.nu * D * ctx.log(2) / 2 - D * (D - 1) * ctx.log(ctx.pi) / 4 \
            - ctx.sum(ctx.lgamma((pr.nu - t) / 2) for t in range(D)) \
            - (pr.nu + D + 1) * ctx.log(ctx.det(S)) / 2 \
            - ctx.sum(pr.psi[a][b] * Si[b][a] for a in range(D)
                      for b in range(D)) / 2
        mn = ctx.normal_logpdf(m, pr.mu, [[v / pr.lam for v in r]
                                          for r in S])
        ctx.eq(f(ctx.arr(m), ctx.arr(S), ctx.arr(pr.mu), pr.lam,
                 ctx.arr(pr.psi), pr.nu), iw + mn,
               "normal inverse Wishart density")


def gumbel(ctx, k, n, size):
    f = get(ctx, "gumbel_max_sampling")
    if f is None:
        return
    cols = size or n
    lp = [[ctx.real(f"lp{j}_{i}") for i in range(1 if size else n)]
          for j in range(k)]
    if size:
        got = f(ctx.arr([r[0] for r in lp]), size=size, rng=ctx.rng())
    else:
        got = f(ctx.arr(lp), rng=ctx.rng())
    ctx.check(np.shape(got) == (cols,), "one category per column")
    ctx.check(len(ctx.draws("uniform")) == k * cols,
              "independent noise for every category")
    ok = []
    for g in _mix.noises(ctx, k, cols):
        good = []
        for i in range(cols):
            b = int(got[i])
            s = [lp[j][0 if size else i] + g[j][i] for j in range(k)]
            good.append(all(ctx.sure(s[b] >= s[j] - 1e-9)
                            for j in range(k)))
        ok.append(all(good))
    ctx.check(any(ok), "the category with the greatest perturbed log weight")


def rejection(ctx, size, lo, hi):
    f = get(ctx, "rejection_sample")
    if f is None:
        return
    a, b = ctx.real("a", lo), ctx.real("b")
    ctx.assume(b > a)
    c, top = ctx.pos("c"), ctx.pos("top")

    def g(x):
        return c * (x - a)
    kw = dict(size=size) if size else {}
    got = f(g, top, a, b, rng=ctx.rng(), **kw)
    xs = list(got) if size else [got]
    ctx.check(len(xs) == (size or 1), "as many draws as asked for")
    prop = [(d.value, t) for t, d in enumerate(ctx.draws("uniform"))
            if not ctx.identical(d.params["high"], top)
            or not ctx.identical(d.params["low"], 0)]
    high = [d.value for d in ctx.draws("uniform")
            if ctx.identical(d.params["high"], top) and ctx.identical(
                d.params["low"], 0)]
    prop = [v for v, _ in prop]
    ctx.check(len(prop) == len(high), "a height for every proposal")
    for x in xs:
        ctx.le(a, x, "inside the interval")
        ctx.le(x, b, "inside the interval")
        t = [i for i, v in enumerate(prop) if ctx.identical(v, x)]
        ctx.check(len(t) >= 1, "the draw is a proposal")
        if t:
            ctx.le(high[t[-1]], g(x), "an accepted draw lies below the curve")


def cluster(ctx, k, m):
    f = get(ctx, "cluster")
    if f is None:
        return
    w = _mix.simplex(ctx, "w", k)
    th = [(ctx.arr([ctx.real(f"m{j}")]), ctx.arr([[ctx.pos(f"s{j}")]]))
          for j in range(k)]
    xs = _mix.data(ctx, m, 1, "x")
    grp, unc = f(ctx.arr(xs), ctx.arr(w), th)
    for i, x in enumerate(xs):
        prob(ctx, 1 - unc[i], *best(ctx, x, dict(w=w, theta=th)))


for nm, f in (("beta", beta), ("meanlog", meanlog)):
    case("C28", nm, "all parameters")(f)
for n in (0, 1, 2, 3):
    case("C28", f"binom-{n}", f"{n} trials", n=n)(binom)
for part in ([1], [2], [1, 1], [2, 1], [3, 1, 2], [4], [1, 1, 1, 1],
             [2, 2], [3, 1, 3]):
    case("C28", "eppf-" + "".join(map(str, part)), f"block sizes {part}",
         part=part)(eppf)
for D, m in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 1)):
    case("C28", f"density-{D}-{m}", f"{m} points of dimension {D}", D=D, m=m,
         track=True, halflogs=False)(student)
for D in (1, 2, 3, 4):
    case("C28", f"wishart-{D}", f"dimension {D}", D=D, track=True,
         halflogs=False, tier="quick" if D < 4 else "thorough")(wishart)
for D, n in ((1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2)):
    case("C28", f"niw-{D}-{n}", f"{n} observations of dimension {D}", D=D,
         n=n, track=True, halflogs=False)(niw)
for k, n, size in ((1, 1, None), (2, 1, None), (2, 2, None), (3, 1, None),
                   (2, 0, 1), (2, 0, 2), (3, 0, 1)):
    case("C28", f"gumbel-{k}-{n}-{size}", f"{k} categories, {n} columns, "
         f"size {size}", k=k, n=n, size=size)(gumbel)
for size in (None, 1, 2):
    case("C28", f"rejection-{size}", f"size {size}, up to 6 draws",
         size=size, lo=None, hi=None, maxdraws=6 if size != 2 else 8)(
             rejection)
for k, m in ((1, 1), (2, 1), (2, 2), (3, 1)):
    case("C28", f"cluster-{k}-{m}", f"{k} components, {m} points", k=k, m=m,
         branch_ms=500, halflogs=False, track=True, logcmp=True)(cluster)
