"""C33: outliers, sharp components and large counts stay in range of double
precision"""
import numpy as np
from symx.harness import case
from checks import _mix, c07, c10, c11, c12, c15, c16, c28

TOL = 1e-9


def near(ctx, a, b, label):
    ctx.check(ctx.finite(a), label + ": a number")
    if ctx.finite(a):
        ctx.close(a, b, TOL, label)


def atoms(ctx, k, D, sharp):
    """components of a variational state: fixed, the last one optionally
    with an arbitrarily sharp scale"""
    th = []
    for j in range(k):
        s = ctx.real("sharp", 1) if sharp and j == k - 1 else 1
        th.append([[2 * j + t for t in range(D)], 1 + j,
                   [[s * int(a == b) for b in range(D)] for a in range(D)],
                   D + 1])
    return th


def state(ctx, n, D, k, sharp, total=1):
    ys = _mix.data(ctx, n, D)
    _mix.var_stub(ctx, k)
    wm = _mix.stub(ctx, k)
    m = _mix.mixture(ctx, wm, total_iter=total, mu_prior=[0] * D,
                     lambda_prior=1, nu_prior=D, psi_prior=np.eye(D).tolist())
    th = atoms(ctx, k, D, sharp)
    m.var_k = k
    m.var_theta = [[ctx.arr(a), b, ctx.arr(c), d] for a, b, c, d in th]
    m.var_d = ctx.arr([[1 / k] * n for _ in range(k)])
    wm.fit_variational(m.var_d)
    return m, wm, ys, th


def update(ctx, n, D, k, sharp):
    """one iteration from the components"""
    m, wm, ys, th = state(ctx, n, D, k, sharp)
    elbos = []
    if hasattr(m, "_calc_elbo"):
        real = m._calc_elbo

        def record():
            elbos.append(real())
            return 0
        m._calc_elbo = record
    m.fit_variational(ctx.arr(ys), warm_start=True, tol=-1)
    want = _mix.resp(ctx, ys, th, ctx.vlog)
    for i in range(n):
        for j in range(k):
            near(ctx, m.var_d[j][i], want[i][j], "responsibility of an "
                 "observation anywhere")
    for mu, lam, W, nu in m.var_theta:
        ctx.check(all(ctx.finite(v) for v in list(np.ravel(mu)) + [lam, nu]
                      + list(np.ravel(W))), "components stay finite")
    for v in elbos:
        ctx.check(ctx.finite(v), "evidence lower bound is finite")


def points(ctx, D, k, m, sharp, what):
    mix, wm, ys, th = state(ctx, 1, D, k, sharp)
    if hasattr(mix, "_calc_elbo"):
        mix._calc_elbo = lambda: 0
    mix.fit_variational(ctx.arr(ys), warm_start=True, tol=-1)
    # questions at arbitrary points, components as before the iteration
    mix.var_theta = [[ctx.arr(a), b, ctx.arr(c), d] for a, b, c, d in th]
    xs = _mix.data(ctx, m, D, "x")
    want = _mix.resp(ctx, xs, th, ctx.vlog)
    if what == "cluster":
        lab, unc = mix.var_map_cluster(ctx.arr(xs), full=True)
        for i in range(m):
            near(ctx, unc[i], 1 - want[i][int(lab[i])],
                 "uncertainty of a point anywhere")
            ctx.check(want[i][int(lab[i])] >= 1 / k - TOL,
                      "cluster of a point anywhere")
    else:
        aff = mix.var_eap_affinity_matrix(ctx.arr(xs))
        for a in range(m):
            for b in range(a):
                near(ctx, aff[a][b], ctx.sum(
                    want[a][j] * want[b][j] for j in range(k)),
                    "affinity of points anywhere")


def gibbs(ctx, D, k, m, what, fixed):
    """points anywhere against the states of a Gibbs run: arbitrary atoms"""
    wm = _mix.stub(ctx, k, fixed=fixed)
    mix = _mix.mixture(ctx, wm, mu_prior=[0] * D, lambda_prior=1, nu_prior=D,
                       psi_prior=np.eye(D).tolist())
    mix.fit_gibbs(ctx.arr(_mix.data(ctx, 1, D)), init_groups=k,
                  init_method="random", show_progress=False)
    xs = _mix.data(ctx, m, D, "x")
    s = mix.map_sim_params if what == "cluster" else mix.get_sim_params()[0]
    want = [_mix.softmax(ctx, [ctx.log(w) + _mix.logpdf(ctx, x, s["theta"][j])
                               for j, w in enumerate(s["w"])]) for x in xs]
    if what == "cluster":
        lab, unc = mix.gibbs_map_cluster(ctx.arr(xs), full=True)
        for i in range(m):
            near(ctx, unc[i], 1 - max(want[i]), "uncertainty of a point "
                 "anywhere")
        for a in range(m):
            for b in range(a):
                if want[a].index(max(want[a])) != want[b].index(max(want[b])):
                    ctx.check(lab[a] != lab[b], "points nearest to different "
                              "components are apart")
    else:
        aff = mix.gibbs_eap_affinity_matrix(ctx.arr(xs))
        for a in range(m):
            for b in range(a):
                same = want[a].index(max(want[a])) == \
                    want[b].index(max(want[b]))
                ctx.eq(aff[a][b], int(same), "affinity of points anywhere")


for D, k, m, what, fixed, tier in (
        (1, 2, 1, "cluster", None, "quick"),
        (1, 2, 2, "cluster", [.5, .4], "thorough"),
        (2, 2, 1, "cluster", None, "quick"),
        (1, 2, 2, "affinity", [.3, .4], "quick")):
    case("C33", f"gibbs-{what}-{D}-{k}-{m}", f"{m} points of dimension {D} "
         f"anywhere, one state of {k} arbitrary atoms, weights "
         f"{fixed or 'arbitrary'}", D=D, k=k, m=m, what=what, fixed=fixed,
         tier=tier, budget=200, limits=True, branch_ms=500, maxdraws=400, halflogs=False,
         track=True, logcmp=True)(gibbs)
for n, D, k, sharp in ((1, 1, 2, 0), (1, 1, 3, 0), (2, 1, 2, 0), (1, 2, 2, 0),
                       (1, 1, 2, 1)):
    case("C33", f"update-{n}-{D}-{k}-{sharp}", f"{n} observations of "
         f"dimension {D} anywhere, {k} fixed components"
         + (", one arbitrarily sharp" if sharp else "")
         + ", arbitrary weights", n=n, D=D, k=k, sharp=sharp, limits=True,
         branch_ms=500, maxdraws=400, halflogs=False, track=True)(update)
for D, k, m, sharp, what in ((1, 2, 1, 0, "cluster"), (1, 3, 1, 0, "cluster"),
                             (2, 2, 1, 0, "cluster"), (1, 2, 1, 1, "cluster"),
                             (1, 2, 2, 0, "affinity")):
    case("C33", f"{what}-{D}-{k}-{m}-{sharp}", f"{m} points of dimension {D} "
         f"anywhere, {k} fixed components"
         + (", one arbitrarily sharp" if sharp else "")
         + ", arbitrary weights", D=D, k=k, m=m, sharp=sharp, what=what,
         limits=True, branch_ms=500, maxdraws=400, halflogs=False,
         track=True)(points)



def sweep(ctx, n, D, k, how, fixed):
    """assignment of observations anywhere to arbitrary components"""
    kw, pr = _mix.priors(ctx, D)
    ys = _mix.data(ctx, n, D)
    wm = _mix.stub(ctx, k, fixed=fixed)
    m = _mix.mixture(ctx, wm, total_iter=1, **kw)
    m.fit_gibbs(ctx.arr(ys), init_groups=k, init_method=how,
                show_progress=False)
    s = m.get_sim_params()[-1]
    u, w, d = list(s["u"]), list(s["w"]), [int(j) for j in s["d"]]
    gs = _mix.noises(ctx, len(w), n)
    ctx.check(bool(gs), "assignment is random")
    if not gs:
        return
    lp = [[_mix.logpdf(ctx, ys[i], s["theta"][j]) for i in range(n)]
          for j in range(len(w))]
    pairs = [(i, j) for i in range(n) for j in range(len(w))
             if j != d[i] and bool(w[j] > u[i])]

    def goals(g):
        return [lp[d[i]][i] + g[d[i]][i] >= lp[j][i] + g[j][i]
                for i, j in pairs]
    best = [g for g in gs if all(ctx.sure(c) for c in goals(g))]
    for c in goals((best or gs)[0]):
        ctx.check(c, "an observation anywhere goes to the component of "
                  "largest perturbed log density")


for n, D, k, how, fixed in ((1, 1, 2, "random", [.5, .5]),
                            (2, 1, 2, "kmeans", [.5, .4]),
                            (1, 2, 2, "random", [.3, .6])):
    case("C33", f"sweep-{n}-{D}-{k}-{how}", f"{n} observations of dimension "
         f"{D} anywhere, one iteration from {k} arbitrary components of "
         f"weights {fixed}", n=n, D=D, k=k, how=how, fixed=fixed, limits=True,
         branch_ms=500)(sweep)
for n, D, k, total, how in ((1, 1, 1, 1, "kmeans"), (1, 1, 2, 1, "random"),
                            (1, 2, 1, 1, "kmeans")):
    case("C33", f"track-{n}-{D}-{k}-{total}-{how}", f"{n} observations of "
         f"dimension {D} anywhere, {total} iterations from {k} components",
         n=n, D=D, k=k, total=total, burn=0, how=how, limits=True,
         branch_ms=500)(c16.track)


# -- counts and concentrations of any size ---------------------------------

def centre(ctx, D):
    """predictive density at its centre, any degrees of freedom"""
    f = c28.get(ctx, "density_students_t")
    if f is None:
        return
    mu = [ctx.real(f"m{t}") for t in range(D)]
    nu = ctx.pos("nu")
    got = f(ctx.arr([mu]), ctx.arr(mu), ctx.arr(np.eye(D).tolist()), nu)
    ctx.check(ctx.finite(got[0]), "predictive density is a number")
    ctx.eq(ctx.log(got[0]), ctx.lgamma((nu + D) / 2) - ctx.lgamma(nu / 2)
           - D * ctx.log(nu * ctx.pi) / 2, "predictive density with any "
           "degrees of freedom")


def blocks(ctx, part):
    f = c28.get(ctx, "dirichlet_log_eppf")
    if f is not None:
        ctx.check(ctx.finite(f(ctx.pos("alpha"), np.array(part))),
                  "log probability of a partition is a number")


LARGE = dict(limits=True, branch_ms=500)
for D in (1, 2, 3):
    case("C33", f"student-{D}", f"dimension {D}, any degrees of freedom",
         D=D, track=True, halflogs=False, **LARGE)(centre)
    case("C33", f"wishart-{D}", f"dimension {D}, any degrees of freedom",
         D=D, track=True, halflogs=False, **LARGE)(c28.wishart)
for nm, f in (("beta", c28.beta), ("meanlog", c28.meanlog)):
    case("C33", nm, "parameters of any size", **LARGE)(f)
for part in ([2, 1], [300], [250, 2], [1] * 300):
    case("C33", f"eppf-{len(part)}-{max(part)}", f"{len(part)} blocks of up "
         f"to {max(part)}, any concentration", part=part, **LARGE)(
             c28.eppf if sum(part) < 9 else blocks)
for nm in ("DP", "PY", "GP", "DD"):
    for k, n in ((2, 1), (2, 2), (3, 1)):
        for what, f in (("mean", c10.mean), ("log", c11.logs),
                        ("terms", c12.terms)):
            case("C33", f"var-{what}-{nm}-{k}-{n}", f"{k} components, {n} "
                 "observations, concentrations of any size", name=nm, k=k,
                 n=n, hist=None, **LARGE)(f)
for nm in ("DP", "PY", "GP", "BiBx", "BBern0", "BBernp", "BBin0", "BBinn",
           "BiD0", "BiDa", "DD"):
    for k, n in ((2, 0), (2, 1)):
        case("C33", f"loglik-{nm}-{k}-{n}", f"{k} weights drawn given {n} "
             "labels, concentrations of any size", name=nm, k=k, n=n,
             **LARGE)(c07.loglik)
