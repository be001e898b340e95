"""Gaussian mixtures under check: symbolic data and priors, a recording stand-in
for the weighting structure, reference posteriors."""
import numpy as np


class P:
    def __init__(self, **k):
        self.__dict__.update(k)


def data(ctx, n, D, name="y"):
    return [[ctx.real(f"{name}{i}_{t}") for t in range(D)] for i in range(n)]


def posdef(ctx, name, D, sparse=False):
    """positive definite matrix with arbitrary entries (LDL'); sparse: only
    the first and last dimension are correlated"""
    d = [ctx.pos(f"{name}d{t}") for t in range(D)]
    L = [[1 if i == j else (ctx.real(f"{name}l{i}{j}") if i > j and
                               (not sparse or i - j == D - 1) else 0)
          for j in range(D)] for i in range(D)]
    return [[ctx.sum(L[i][t] * d[t] * L[j][t] for t in range(min(i, j) + 1))
             for j in range(D)] for i in range(D)]


def priors(ctx, D, which="full"):
    """-> (constructor arguments, mu, lam, psi, nu)"""
    mu = [ctx.real(f"mu{t}") for t in range(D)]
    lam = ctx.pos("lam")
    psi = posdef(ctx, "psi", D)
    nu = ctx.real("nu", D - 1)
    kw = dict(mu_prior=ctx.arr(mu), lambda_prior=lam,
              psi_prior=ctx.arr(psi), nu_prior=nu)
    return kw, P(mu=mu, lam=lam, psi=psi, nu=nu)


def simplex(ctx, name, k, total=None):
    """k positive weights summing to one (or to total)"""
    out, rest = [], 1 if total is None else total
    for j in range(k - 1):
        v = ctx.real(f"{name}{j}", 0, 1)
        out.append(rest * v)
        rest = rest * (1 - v)
    return out + [rest]


def stub(ctx, k=2, total=None, fixed=None, rng=None, grow=0, twin=None,
         path=None, flat=False):
    """a weighting structure with arbitrary weights: every call of random()
    yields new ones (those of the twin, if any); fit, tail, complete calls are
    recorded. path: only the runs whose t-th fit has the labels path[t],
    slices increasing with the observation. flat: every state but the first
    has likelihood zero (those after a fit)"""
    if path:
        ctx.world.labels_fix = path[0]
        n = len(path[0])
        ctx.world.slice_ranges = [(t / n, (t + 0.9) / n) for t in range(n)]
    wm = ctx.load("pyrichlet.weight_models")

    class Stub(wm.BaseWeight):
        def __init__(self):
            super().__init__(rng=rng if rng is not None else ctx.rng())
            self.log = []
            self.fits = []
            self.hist = []
            self.ext = []
            self.visited = []
            self.owner = None
            self.rounds = 0
            self.liks = 0
            self.tails = []
            self.var_fits = []
            self.k = k

        def fit(self, d):
            if not self.fits:
                self.start = list(self.w)
            super().fit(d)
            t = len(self.fits)
            if path and t < len(path) and len(d) == len(path[t]):
                ctx.assume(all([bool(a == b) for a, b in zip(d, path[t])]))
            self.fits.append([v for v in np.asarray(d)])
            self.log.append("fit")

        def reset(self):
            super().reset()
            self.log.append("reset")

        def random(self, size=None):
            self.log.append("random")
            if fixed is not None:
                self.w = ctx.arr(fixed)
            elif twin is not None and self.rounds < len(twin.hist):
                self.w = ctx.arr(twin.hist[self.rounds])
            else:
                top = 1 + max([int(x) for x in self.fits[-1]]) \
                    if self.fits else 0
                self.w = ctx.arr(simplex(ctx, f"w{self.rounds}_",
                                         max(k, top), total))
            self.rounds += 1
            self.hist.append(list(self.w))
            return self.w

        def complete(self, size):
            super().complete(size)
            self.log.append(("complete", size))
            if len(self.w) == 0:
                self.random()
            return self.w

        def tail(self, x):
            self.log.append("tail")
            self.tails.append((x, len(self.w)))
            if len(self.w) == 0:
                self.random()
            if grow and len(self.w) < k + grow:
                t = len(self.ext)
                self.ext.append(
                    twin.ext[t] if twin is not None and t < len(twin.ext)
                    else [ctx.real(f"x{t}_{j}", 0, 1) for j in range(grow)])
                self.w = ctx.arr(list(self.w) + self.ext[-1])
            return self.w

        def assignation_log_likelihood(self, d=None):
            r = super().assignation_log_likelihood(d)
            o = self.owner
            if o is not None:
                dd = [int(x) for x in (o.d if d is None else d)]
                self.visited.append(P(
                    d=dd, w=list(self.w), u=list(o.u),
                    theta={j: o.theta[j] for j in set(dd)}))
            self.liks += 1
            return -np.inf if flat and self.fits else r

        def weighting_log_likelihood(self):
            return 0

        # variational: arbitrary summaries, recorded fits
        def fit_variational(self, variational_d):
            self.variational_d = variational_d
            self.variational_k = len(variational_d)
            self.var_fits.append(np.array(variational_d, copy=True))
            self.log.append("fit_variational")

        def variational_mean_log_w_j(self, j):
            return ctx.vlog[j]

        def variational_mean_w_j(self, j):
            return ctx.vmean[j]

        def variational_mode_w_j(self, j):
            return ctx.vmode[j]

        def variational_mean_log_p_d__w(self, variational_d=None):
            v = self.variational_d if variational_d is None else \
                variational_d
            s = [sum(r) for r in v]
            return ctx.sum(a * b for a, b in zip(s, ctx.vlog))

        def variational_mean_log_p_w(self):
            return ctx.vlp

        def variational_mean_log_q_w(self):
            return ctx.vlq
    return Stub()


def mixture(ctx, wm, rng=None, **kw):
    mm = ctx.load("pyrichlet.mixture_models")
    kw.setdefault("total_iter", 1)
    kw.setdefault("burn_in", 0)
    m = mm.BaseGaussianMixture(
        weight_model=wm, rng=rng if rng is not None else wm._rng, **kw)
    wm.owner = m
    return m


def mean(ctx, ys, D):
    n = len(ys)
    return [ctx.sum(y[t] for y in ys) / n for t in range(D)]


def niw_posterior(ctx, pr, ys, D):
    """normal inverse Wishart posterior given the rows ys"""
    n = len(ys)
    if n == 0:
        return pr
    m = mean(ctx, ys, D)
    lam, nu = pr.lam + n, pr.nu + n
    mu = [(pr.lam * pr.mu[t] + n * m[t]) / lam for t in range(D)]
    c = pr.lam * n / lam
    psi = [[pr.psi[a][b] + ctx.sum((y[a] - m[a]) * (y[b] - m[b]) for y in ys)
            + c * (m[a] - pr.mu[a]) * (m[b] - pr.mu[b])
            for b in range(D)] for a in range(D)]
    return P(mu=mu, lam=lam, psi=psi, nu=nu)


def check_atom(ctx, atom, q, D, label):
    """atom = (mean, covariance) is a fresh normal inverse Wishart draw with
    parameters q; returns its laws"""
    mu, sig = atom
    ctx.check(np.shape(mu) == (D,), label + ": shape of the mean")
    ctx.check(np.shape(sig) == (D, D), label + ": shape of the covariance")
    s = ctx.law_mat(sig)
    if s is None or s.kind != "invwishart":
        ctx.fail(label + ": covariance is an inverse Wishart draw")
        return []
    ctx.eq(s.df, q.nu, label + ": degrees of freedom")
    ctx.eq_all([list(r) for r in s.scale], q.psi, label + ": scale matrix")
    m = ctx.law_vec(mu)
    if m is None or m.kind not in ("mvn", "normal"):
        ctx.fail(label + ": mean is a normal draw")
        return [s]
    ctx.eq_all(list(m.mean), q.mu, label + ": centre of the mean")
    ctx.eq_all([list(r) for r in m.cov],
               [[sig[a][b] / q.lam for b in range(D)] for a in range(D)],
               label + ": covariance of the mean")
    return [s, m]


def noises(ctx, k, n, upto=None):
    """candidates for the Gumbel noise of component j, observation i in the
    last k*n draws before position upto: [j][i] -> value"""
    out = []
    for kind, f in (("uniform", lambda d: -ctx.log(-ctx.log(d.value))),
                    ("gumbel", lambda d: d.value),
                    ("exponential", lambda d: -ctx.log(d.value))):
        ds = ctx.draws(kind)[-k * n:]
        if len(ds) < k * n:
            continue
        if kind == "uniform" and not all(
                ctx.same(d.params["low"], 0) and ctx.same(
                    d.params["high"], 1) for d in ds):
            continue
        g = [f(d) for d in ds]
        out.append([[g[j * n + i] for i in range(n)] for j in range(k)])
        out.append([[g[i * k + j] for i in range(n)] for j in range(k)])
    return out


def logpdf(ctx, y, atom):
    mu, sig = atom
    return ctx.normal_logpdf(y, list(mu), [list(r) for r in sig])


def loglik(ctx, ys, d, w, theta):
    """log density of the data and groups given weights and atoms"""
    return ctx.sum(logpdf(ctx, ys[i], theta[j]) + ctx.log(w[j])
                   for i, j in enumerate(d))


def same_state(ctx, a, b):
    """the same groups, weights and atoms of occupied groups (never forks)"""
    if list(a.d) != list(b.d) or len(a.w) != len(b.w):
        return False
    v = list(zip(a.w, b.w))
    for j in set(a.d):
        for x, y in zip(a.theta[j], b.theta[j]):
            v += list(zip(np.ravel(x), np.ravel(y)))
    return all(ctx.identical(x, y) for x, y in v)


def state(s):
    return P(d=[int(x) for x in s["d"]], w=list(s["w"]), theta=s["theta"],
             u=list(s["u"]))


# -- variational -----------------------------------------------------------

def var_stub(ctx, k):
    """stub with arbitrary variational summaries"""
    ctx.vlog = [ctx.real(f"elogw{j}", None, 0) for j in range(k)]
    ctx.vmean = [ctx.real(f"ew{j}", 0, 1) for j in range(k)]
    ctx.vmode = [ctx.real(f"mw{j}", 0, 1) for j in range(k)]
    ctx.vlp, ctx.vlq = ctx.real("elogp"), ctx.real("elogq")
    return stub(ctx, k)


def nw_posterior(ctx, pr, ys, r, D):
    """optimal normal Wishart parameters (mean, lambda, inverse of the scale
    matrix, nu) given responsibilities r of one component; the usual update
    written with raw moments"""
    nj = ctx.sum(r)
    lam, nu = pr.lam + nj, pr.nu + nj
    s1 = [ctx.sum(a * y[t] for a, y in zip(r, ys)) for t in range(D)]
    mu = [(pr.lam * pr.mu[t] + s1[t]) / lam for t in range(D)]
    inv = [[pr.psi[a][b] + ctx.sum(c * y[a] * y[b] for c, y in zip(r, ys))
            + pr.lam * pr.mu[a] * pr.mu[b] - lam * mu[a] * mu[b]
            for b in range(D)] for a in range(D)]
    return P(mu=mu, lam=lam, inv=inv, nu=nu)


def elogdet(ctx, W, nu):
    """E log |Lambda| for Lambda ~ Wishart(W, nu)"""
    D = len(W)
    return ctx.sum(ctx.digamma((nu - t) / 2) for t in range(D)) \
        + D * ctx.log(2) + ctx.log(ctx.det(W))


def log_resp(ctx, y, th, vlog):
    """expected log weight plus expected log density of y"""
    mu, lam, W, nu = th
    W = [list(r) for r in W]
    D = len(W)
    d = [y[t] - mu[t] for t in range(D)]
    return vlog + elogdet(ctx, W, nu) / 2 - D * ctx.log(2 * ctx.pi) / 2 \
        - D / (2 * lam) - nu * ctx.quad(d, W) / 2


def softmax(ctx, l):
    b = 0
    for j in range(1, len(l)):
        if bool(l[j] > l[b]):
            b = j
    e = [1 if j == b else ctx.exp(v - l[b]) for j, v in enumerate(l)]
    tot = ctx.sum(e)
    return [v / tot for v in e]


def size_biased(ctx, labels):
    """labels renamed by decreasing size (ties by label)"""
    u, d, c = np.unique(labels, return_inverse=True, return_counts=True)
    return [int(x) for x in np.argsort(np.argsort(-c))[d]]


def resp(ctx, ys, thetas, vlog):
    """[observation][component] responsibilities"""
    return [softmax(ctx, [log_resp(ctx, y, th, v)
                          for th, v in zip(thetas, vlog)]) for y in ys]


def inverse_of(ctx, M, N, label):
    """M is the inverse of N (lists of lists)"""
    D = len(N)
    for a in range(D):
        for b in range(D):
            ctx.eq(ctx.sum(M[a][t] * N[t][b] for t in range(D)),
                   1 if a == b else 0, label)


def var_state(ctx, n, D, k, nu_min=None, total=1):
    """a mixture whose variational state was replaced by an arbitrary one
    after a first fit -> mixture, stand-in, data, responsibilities, atoms"""
    pr = P(mu=[0] * D, lam=1, nu=D,
           psi=[[int(a == b) for b in range(D)] for a in range(D)])
    ys = data(ctx, n, D)
    var_stub(ctx, k)
    wm = stub(ctx, k)
    m = mixture(ctx, wm, total_iter=total, mu_prior=ctx.arr(pr.mu),
                lambda_prior=1, nu_prior=D, psi_prior=ctx.arr(pr.psi))
    if hasattr(m, "_calc_elbo"):
        values = iter(range(100))
        m._calc_elbo = lambda: next(values)
    m.fit_variational(ctx.arr(ys), n_groups=k, init_method="random", tol=-1)
    cols = [simplex(ctx, f"r{i}_", k) for i in range(n)]
    R = [[cols[i][j] for i in range(n)] for j in range(k)]
    th = []
    for j in range(k):
        th.append([[ctx.real(f"m{j}_{t}") for t in range(D)],
                   ctx.pos(f"l{j}"), posdef(ctx, f"W{j}", D, D > 2),
                   ctx.real(f"v{j}", D - 1 if nu_min is None else nu_min)])
    m.var_theta = [[ctx.arr(a), b, ctx.arr(c), d] for a, b, c, d in th]
    m.var_d = ctx.arr(R)
    wm.fit_variational(m.var_d)
    return m, wm, ys, R, th
