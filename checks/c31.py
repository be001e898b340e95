"""C31: asking for results and showing progress change nothing"""
import contextlib
import io
import numpy as np
from symx.harness import case
from checks import _mix, _real, _var, _wm


def gibbs_asks(m, pts, flat):
    return [("EAP density", lambda: m.gibbs_eap_density()),
            ("EAP density of points", lambda: m.gibbs_eap_density(pts)),
            ("EAP density of one period",
             lambda: m.gibbs_eap_density(pts, periods=1)),
            ("EAP density of a dimension",
             lambda: m.gibbs_eap_density(flat, dim=0)),
            ("EAP density of a component",
             lambda: m.gibbs_eap_density(pts, component=0)),
            ("MAP density", lambda: m.gibbs_map_density()),
            ("MAP density of a dimension of the data",
             lambda: m.gibbs_map_density(dim=[0])),
            ("MAP density of points",
             lambda: m.gibbs_map_density(pts, component=0)),
            ("affinity", lambda: m.gibbs_eap_affinity_matrix()),
            ("affinity of points", lambda: m.gibbs_eap_affinity_matrix(pts)),
            ("clusters", lambda: m.gibbs_map_cluster()),
            ("clusters of points",
             lambda: m.gibbs_map_cluster(pts, full=True))]


def var_asks(m, pts, flat):
    return [("EAP density", lambda: m.var_eap_density()),
            ("EAP density of points", lambda: m.var_eap_density(pts)),
            ("EAP density of a dimension",
             lambda: m.var_eap_density(flat, dim=0)),
            ("EAP density of a component",
             lambda: m.var_eap_density(pts, component=0)),
            ("affinity", lambda: m.var_eap_affinity_matrix()),
            ("affinity of points", lambda: m.var_eap_affinity_matrix(pts)),
            ("clusters", lambda: m.var_map_cluster()),
            ("clusters with uncertainty",
             lambda: m.var_map_cluster(full=True)),
            ("clusters of points", lambda: m.var_map_cluster(pts, full=True))]


def flatten(r):
    if isinstance(r, tuple):
        return [v for x in r for v in flatten(x)]
    return [v for v in np.ravel(np.asarray(r))]


def spoil(r):
    """overwrite an array that was returned"""
    for x in r if isinstance(r, tuple) else (r,):
        x[...] = 7


def state(m, how):
    out = _real.variational(m) if how == "var" else _real.chain(m)
    return out + [v for r in m.y for v in r] + \
        [v for v in np.ravel(m.mu_prior)] + \
        [v for v in np.ravel(m.psi_prior)] + [m.nu_prior, m.lambda_prior]


def weights(m, how):
    w = m.weight_model
    return list(w.get_weights())


def ask(ctx, m, how, pts, flat, given):
    """every question twice, the second time backwards"""
    before, w0 = state(m, how), weights(m, how)
    n = len(ctx.draws())
    asks = (var_asks if how == "var" else gibbs_asks)(m, pts, flat)
    first = {}
    for what, f in asks:
        r = f()
        first[what] = flatten(r)
        spoil(r)
    for what, f in reversed(asks):
        ctx.eq_all(flatten(f()), first[what], f"{what}: the same again")
    ctx.check(len(ctx.draws()) == n, "asking for results draws nothing")
    ctx.eq_all(state(m, how), before, "the fit stays as it was")
    ctx.check(len(weights(m, how)) == len(w0), "the weights stay")
    ctx.eq_all(weights(m, how), w0, "the weights stay as they were")
    ctx.eq_all([v for r in pts for v in r], [v for r in given for v in r],
               "the points stay as they were")


def stub_mixture(ctx, how, n, D, k, T, sub, kind="fit"):
    ys = _mix.data(ctx, n, D)
    kw, pr = _mix.priors(ctx, D)
    if how == "var":
        _mix.var_stub(ctx, k)
    wm = _mix.stub(ctx, k, fixed=[0.9 / k] * k)
    m = _mix.mixture(ctx, wm, total_iter=T, subsample_steps=sub, **kw)
    if hasattr(m, "_calc_elbo"):
        values = iter(range(1000))
        m._calc_elbo = lambda: next(values)
    if how == "var":
        m.fit_variational(ctx.arr(ys), n_groups=k, init_method="random",
                          tol=-1)
        wm.random()
    else:
        m.fit_gibbs(ctx.arr(ys), init_groups=k, init_method="random",
                    show_progress=False)
    return m


def any_structure(ctx, how, n, D, k, T, sub, p):
    m = stub_mixture(ctx, how, n, D, k, T, sub)
    xs = _mix.data(ctx, p, D, "x")
    ask(ctx, m, how, ctx.arr(xs), ctx.arr([x[0] for x in xs]), xs)


def any_posterior(ctx, n, D, k, p):
    m, wm, *_ = _mix.var_state(ctx, n, D, k)
    wm.w = ctx.arr([1 / k] * k)
    xs = _mix.data(ctx, p, D, "x")
    ask(ctx, m, "var", ctx.arr(xs), ctx.arr([x[0] for x in xs]), xs)


def named(ctx, name, how, k):
    m = _real.build(ctx, name, ctx.rng("g"), _real.params(ctx, name, k))
    _real.fit(ctx, m, _mix.data(ctx, 1, 1), how, k, "random")
    xs = _mix.data(ctx, 1, 1, "x")
    ask(ctx, m, how, ctx.arr(xs), ctx.arr([x[0] for x in xs]), xs)


def resumed(ctx, name, how, start, k, most=2):
    """a warm start after questions goes on as without them"""
    par = _real.params(ctx, name, k)
    ys = _mix.data(ctx, 1, 1)
    one = _real.build(ctx, name, ctx.rng("g"), par, most=most)
    _real.fit(ctx, one, ys, how, k, start)
    want = _real.fit(ctx, one, ys, how, k, start, warm=True)
    two = _real.build(ctx, name, ctx.rng("g"), par, most=most)
    _real.fit(ctx, two, ys, how, k, start)
    x = ctx.arr(_mix.data(ctx, 1, 1, "x"))
    for what, f in (var_asks if how == "var" else gibbs_asks)(two, x, x):
        spoil(f())
    got = _real.fit(ctx, two, ys, how, k, start, warm=True)
    ctx.eq_all(got, want, "a warm start goes on as without the questions")


def consensus(ctx, how):
    """consensus clusters leave everything but the generator as it was"""
    m = stub_mixture(ctx, how, 2, 1, 1, 1, 1)
    before, w0 = state(m, how), weights(m, how)
    x = ctx.arr(_mix.data(ctx, 2, 1, "x"))
    f = ("var" if how == "var" else "gibbs") + "_eap_spectral_consensus_cluster"
    for y in (None, x):
        spoil(getattr(m, f)(y, n_clusters=2))
    ctx.eq_all(state(m, how), before, "the fit stays as it was")
    ctx.eq_all(weights(m, how), w0, "the weights stay as they were")


def structure(ctx, name, d, size, k):
    """questions to a structure do not change its later draws"""
    from checks.c26 import Same
    same = Same(ctx)

    def one(asking):
        w, p = _wm.make(same, name, k=k, rng=ctx.rng("g"))
        if d is not None:
            w.fit(np.array(d))
        w.random(size)
        out = list(w.get_weights())
        if asking:
            n = len(ctx.draws())
            lab = [0, len(out) - 1]
            asks = [("normalised weights", w.get_normalized_weights),
                    ("cumulative weights",
                     w.get_normalized_cumulative_weights),
                    ("size", w.get_size),
                    ("assignment log-likelihood",
                     lambda: w.assignation_log_likelihood(np.array(lab))),
                    ("weights held", lambda: w.complete(1))]
            if name != "BBernp":
                asks.append(("tail reached", lambda: w.tail(0)))
            if name not in ("FR", "EQ", "BiD0", "BiDa"):
                asks.append(("log-likelihood", w.weighting_log_likelihood))
            first = {}
            for what, f in asks:
                first[what] = flatten(f())
            spoil(w.get_normalized_weights())
            spoil(w.get_normalized_cumulative_weights())
            for what, f in reversed(asks):
                ctx.eq_all(flatten(f()), first[what],
                           f"{what}: the same again")
            ctx.check(len(ctx.draws()) == n, "questions draw nothing")
            ctx.check(len(w.get_weights()) == len(out), "the weights stay")
            ctx.eq_all(list(w.get_weights()), out,
                       "the weights stay as they were")
        out += list(w.complete(len(out) + (name in _wm.STICKS)))
        out += list(w.random(size))
        return out
    a = one(False)
    b = one(True)
    ctx.check(len(a) == len(b), "later draws are as many")
    ctx.eq_all(b, a, "later draws are as without the questions")


def var_structure(ctx, name, k, n):
    """questions to a variational posterior"""
    m, p, rows = _var.fitted(ctx, name, k, n)
    given = m.variational_d
    asks = [(f"mean {j}", lambda j=j: m.variational_mean_w_j(j))
            for j in range(k)] + \
           [(f"log mean {j}", lambda j=j: m.variational_mean_log_w_j(j))
            for j in range(k)]
    if name not in ("EQ", "FR"):
        asks += [("log p(w)", m.variational_mean_log_p_w),
                 ("log q(w)", m.variational_mean_log_q_w)]
    if name != "FR":
        asks.append(("log p(d|w)", m.variational_mean_log_p_d__w))
        other = ctx.arr(_var.resp(ctx, "other", k, n))
        asks.append(("log p(d|w) of others",
                     lambda: m.variational_mean_log_p_d__w(other)))
    first = {}
    for what, f in asks:
        first[what] = f()
    for what, f in reversed(asks):
        ctx.eq(f(), first[what], f"{what}: the same again")


def progress(ctx, how, n, k, T, burn, sub, where):
    """showing progress changes nothing"""
    ys = _mix.data(ctx, n, 1)
    kw, pr = _mix.priors(ctx, 1)
    if how == "var":
        _mix.var_stub(ctx, k)

    def one(shown):
        wm = _mix.stub(ctx, k, fixed=[0.9 / k] * k, rng=ctx.rng("g"))
        args, opts = {}, {}
        if where == "model":
            args["show_progress"] = shown
        else:
            opts["show_progress"] = shown
            args["show_progress"] = where == "both"
        m = _mix.mixture(ctx, wm, total_iter=T, burn_in=burn,
                         subsample_steps=sub, **args, **kw)
        if hasattr(m, "_calc_elbo"):
            values = iter([0, 5, 6, 6, 6, 6, 6])
            m._calc_elbo = lambda: next(values)
        if how == "var":
            m.fit_variational(ctx.arr(ys), n_groups=k, init_method="random",
                              tol=0.5, **opts)
            return state(m, how) + [int(m.var_converged)]
        m.fit_gibbs(ctx.arr(ys), init_groups=k, init_method="random", **opts)
        return state(m, how)
    with contextlib.redirect_stdout(io.StringIO()):
        a, b = one(False), one(True)
    ctx.check(len(a) == len(b), "as many states with and without progress")
    ctx.eq_all(b, a, "progress shown changes nothing")


for how, n, D, k, T, sub, p, tier in (
        ("gibbs", 1, 1, 1, 2, 1, 2, "quick"),
        ("gibbs", 2, 1, 1, 2, 1, 1, "quick"),
        ("gibbs", 1, 2, 1, 1, 1, 1, "quick"),
        ("gibbs", 1, 1, 2, 1, 1, 2, "quick"),
        ("gibbs", 2, 1, 2, 1, 1, 1, "thorough"),
        ("gibbs", 1, 1, 2, 2, 1, 1, "thorough"),
        ("var", 1, 1, 1, 1, 1, 2, "quick"),
        ("var", 2, 1, 1, 1, 1, 1, "quick"),
        ("var", 1, 1, 2, 1, 1, 1, "quick"),
        ("var", 2, 1, 2, 1, 1, 1, "thorough"),
        ("var", 1, 1, 3, 1, 1, 1, "thorough")):
    case("C31", f"any-{how}-{n}-{D}-{k}-{T}-{p}", f"{how}, {n} observations "
         f"in dimension {D}, {k} components, {T} iterations, {p} points; "
         "every question twice", how=how, n=n, D=D, k=k, T=T, sub=sub, p=p,
         tier=tier, branch_ms=500, track=how == "var",
         halflogs=how != "var")(any_structure)
for n, D, k, p, tier in ((1, 2, 1, 1, "quick"), (2, 2, 2, 1, "thorough"),
                         (1, 2, 2, 1, "thorough"), (1, 3, 1, 1, "thorough")):
    case("C31", f"state-{n}-{D}-{k}-{p}", f"any variational state of {n} "
         f"observations in dimension {D}, {k} components, {p} points; every "
         "question twice", n=n, D=D, k=k, p=p, tier=tier, branch_ms=500,
         track=True, halflogs=False)(any_posterior)
for nm, (_, _, var) in _real.MIX.items():
    slow = nm in ("BBern", "BiD", "BBin", "BiB")
    case("C31", f"named-{nm}-gibbs", "1 observation, 1 component; every "
         "question twice", name=nm, how="gibbs", k=1, branch_ms=500,
         maxdraws=120)(named)
    case("C31", f"resumed-{nm}-gibbs", "1 observation, 1 component, questions "
         "before a warm start", name=nm, how="gibbs", k=1, start="kmeans",
         most=1 if slow else 2,
         branch_ms=500, maxdraws=120)(resumed)
    if var:
        case("C31", f"named-{nm}-var", "1 observation, 2 components; every "
             "question twice", name=nm, how="var", k=2, branch_ms=500,
             maxdraws=120, track=True, halflogs=False)(named)
        case("C31", f"resumed-{nm}-var", "1 observation, 1 component, "
             "questions before a warm start", name=nm, how="var", k=1,
             start="random", branch_ms=500, maxdraws=120, track=True,
             halflogs=False)(resumed)
for how in ("gibbs", "var"):
    case("C31", f"consensus-{how}", "2 observations, 2 points, 1 component",
         how=how, branch_ms=500, track=how == "var",
         halflogs=how != "var")(consensus)
for nm in _wm.ALL:
    for d, size, k in ((None, 1, 2), (None, 3, 3), ([0, 1], None, 2),
                       ([1, 0, 1], 3, 3)):
        if nm == "FR" and d is None:
            continue
        case("C31", f"structure-{nm}-{'' if d is None else len(d)}-{size}",
             f"assignments {d}, {size} weights drawn; every question twice, "
             "then two more draws", name=nm, d=d, size=size, k=k,
             maxdraws=120, branch_ms=500)(structure)
for nm in _var.NAMES:
    for k, n in ((2, 2), (3, 1)):
        case("C31", f"posterior-{nm}-{k}-{n}", f"{k} components, {n} columns; "
             "every question twice", name=nm, k=k, n=n, track=True,
             halflogs=False)(var_structure)
for how, n, k, T, burn, sub, where in (
        ("gibbs", 1, 1, 3, 1, 1, "call"), ("gibbs", 1, 1, 5, 2, 2, "model"),
        ("gibbs", 1, 1, 4, 1, 2, "call"),
        ("gibbs", 2, 1, 4, 0, 3, "both"), ("gibbs", 1, 2, 1, 0, 1, "call"),
        ("var", 1, 1, 5, 0, 1, "call"), ("var", 1, 1, 2, 1, 1, "model"),
        ("var", 1, 1, 1, 0, 1, "both")):
    case("C31", f"progress-{how}-{n}-{k}-{T}-{burn}-{sub}-{where}",
         f"{how}, {n} observations, {k} components, {T} iterations, {burn} "
         f"burn-in, every {sub}; progress asked for by {where}", how=how, n=n,
         k=k, T=T, burn=burn, sub=sub, where=where, branch_ms=500,
         track=how == "var", halflogs=how != "var")(progress)
