"""C29: cold refits start over, warm starts continue, both fits are separate"""
import copy
import numpy as np
from symx.harness import case
from checks import _mix, _real


def flat(ctx, m, how):
    return _real.variational(m) if how == "var" else _real.chain(m)


def first(ctx, m, past, k, again=0):
    """an earlier fit of other data"""
    n, D, how, start = past
    ys = _mix.data(ctx, n, D, "past")
    if D == 1:
        for a in range(n):
            for b in range(a):
                ctx.assume(ys[a][0] != ys[b][0])
    _real.fit(ctx, m, ys, how, k, start)
    for _ in range(again):
        _real.fit(ctx, m, ys, how, k, start, warm=True)


def cold(ctx, name, past, n, how, start, k, priors, total, warmed=0):
    par = _real.params(ctx, name, k)
    rng = ctx.rng("g")
    a = _real.build(ctx, name, rng, par, priors=priors, total_iter=total)
    first(ctx, a, past, k, warmed)
    again = copy.deepcopy(rng)
    ys = _mix.data(ctx, n, 1)
    b = _real.build(ctx, name, again, par, priors=priors, total_iter=total)
    # construction may have drawn: the fit itself starts at the same place
    again._i = rng._i
    got = _real.fit(ctx, a, ys, how, k, start)
    want = _real.fit(ctx, b, ys, how, k, start)
    ctx.eq_all(got, want, "a cold refit is the fit of a new mixture")


def warm(ctx, name, n, how, start, k, a, b, c=0):
    par = _real.params(ctx, name, k)
    ys = _mix.data(ctx, n, 1)
    one = _real.build(ctx, name, ctx.rng("g"), par, total_iter=a + b + c)
    want = _real.fit(ctx, one, ys, how, k, start)
    two = _real.build(ctx, name, ctx.rng("g"), par, total_iter=a)
    _real.fit(ctx, two, ys, how, k, start)
    two.total_iter = b
    got = _real.fit(ctx, two, ys, how, k, start, warm=True)
    if c:
        two.total_iter = c
        got = _real.fit(ctx, two, ys, how, k, start, warm=True)
    ctx.eq_all(got, want, "a warm start continues the past run")


def apart(ctx, name, order, start, k):
    """the other kind of fit changes nothing already reported"""
    par = _real.params(ctx, name, k)
    ys = _mix.data(ctx, 1, 1)
    m = _real.build(ctx, name, ctx.rng("g"), par)
    one, other = order
    before = _real.fit(ctx, m, ys, one, k, start)
    _real.fit(ctx, m, ys, other, k, start)
    ctx.eq_all(flat(ctx, m, one), before,
               f"the {other} fit leaves the {one} fit as it was")


def stub_cold(ctx, pastn, pastD, n, D, k, how, start, priors,
              most=None):
    """any weighting structure, other dimensions, priors from the data"""
    kw = {}
    if most:
        # only the first weight is above the slices
        ctx.world.slice_ranges = [(0.6, 0.9)]
    if priors == 2:
        kw = dict(lambda_prior=ctx.pos("lam"))
    elif priors:
        kw = dict(lambda_prior=ctx.pos("lam"))
        if pastD == D:
            kw = _mix.priors(ctx, D)[0]
    else:
        kw = dict(lambda_prior=ctx.pos("lam"), nu_prior=D + pastD)
    if how == "var":
        _mix.var_stub(ctx, k)
    rng = ctx.rng("g")

    def make(r):
        wm = _mix.stub(ctx, k, rng=r, fixed=[1 / k] * k if not most else
                       [most] + [(0.9 - most) / (k - 1)] * (k - 1))
        m = _mix.mixture(ctx, wm, total_iter=1, rng=r, **kw)
        if hasattr(m, "_calc_elbo"):
            m._calc_elbo = lambda: 0
        return m
    a = make(rng)
    def points(n, D, name):
        if D == 2 and priors != 1:
            # a nonsingular sample covariance
            p, q = ctx.real(name + "a"), ctx.real(name + "b")
            return [[p, q], [p + 1, q], [p, q + 1]]
        v = _mix.data(ctx, n, D, name)
        if priors != 1:
            ctx.assume(v[0][0] != v[1][0])
        return v
    ps = points(pastn, pastD, "past")
    ys = points(n, D, "y")
    _real.fit(ctx, a, ps, how, k, start) if how == "gibbs" else \
        a.fit_variational(ctx.arr(ps), tol=-1, n_groups=k, init_method=start)
    b = make(copy.deepcopy(rng))
    for m in (a, b):
        if how == "gibbs":
            m.fit_gibbs(ctx.arr(ys), init_groups=k, init_method=start,
                        show_progress=False)
        else:
            m.fit_variational(ctx.arr(ys), tol=-1, n_groups=k,
                              init_method=start)

    def report(m):
        out = [v for r in m.y for v in r] + [v for v in np.ravel(m.mu_prior)] \
            + [v for v in np.ravel(m.psi_prior)] + [m.nu_prior]
        return out + (_real.chain(m) if how == "gibbs" else [
            v for r in m.var_d for v in r] + [
                v for t in m.var_theta for x in t for v in np.ravel(x)])
    ctx.eq_all(report(a), report(b),
               "a cold refit is the fit of a new mixture")


for nm, (_, _, var) in _real.MIX.items():
    slow = nm in ("BBern", "BiD", "BBin", "BiB")
    for past, n, how, start, k, priors, total, tier in (
            ((2, 1, "gibbs", "kmeans"), 1, "gibbs", "kmeans", 1, 1, 1,
             "quick"),
            ((1, 1, "gibbs", "random"), 1, "gibbs", "random", 2, 1, 1,
             "thorough" if slow else "quick"),
            ((1, 1, "var", "random"), 1, "gibbs", "random", 1, 1, 1,
             "quick"),
            ((1, 1, "gibbs", "random"), 1, "var", "random", 1, 1, 1,
             "quick"),
            ((1, 1, "var", "random"), 1, "var", "random", 2, 1, 1,
             "quick"),
            ((1, 1, "var", "random"), 1, "var", "kmeans", 1, 1, 1,
             "quick")):
        if not var and "var" in (how, past[2]):
            continue
        if slow and past[0] == 2:
            past = (1,) + past[1:]
        case("C29", f"cold-{nm}-{'-'.join(str(p) for p in past)}-{n}-{how}-"
             f"{start}-{k}-{total}", f"{past[0]} past observations, then {n}, "
             f"{k} components, {how}, {start} start", name=nm, past=past,
             n=n, how=how, start=start, k=k, priors=priors, total=total,
             tier=tier, branch_ms=500, maxdraws=120, track=how == "var",
             halflogs=how != "var")(cold)
    for n, how, start, k, a, b, tier in (
            (1, "gibbs", "kmeans", 1, 1, 1, "quick"),
            (1, "gibbs", "random", 1, 2, 1, "thorough"),
            (1, "var", "kmeans", 1, 1, 1, "quick"),
            (1, "var", "random", 2, 1, 1, "quick"),
            (1, "var", "random", 1, 2, 2, "quick")):
        if not var and how == "var":
            continue
        case("C29", f"warm-{nm}-{n}-{how}-{start}-{k}-{a}-{b}", f"{n} "
             f"observations, {a} then {b} iterations, {k} components, {how}, "
             f"{start} start", name=nm, n=n, how=how, start=start, k=k, a=a,
             b=b, tier=tier, branch_ms=500, maxdraws=120,
             track=how == "var", halflogs=how != "var")(warm)
    for how in ("gibbs", "var")[:1 + bool(var)]:
        case("C29", f"cold-{nm}-warmed-{how}", "a past fit of one observation "
             f"and two warm starts, then a new one, one component, {how}, "
             "random start", name=nm, past=(1, 1, how, "random"), n=1,
             how=how, start="random", k=1, priors=1, total=1, warmed=2,
             tier="thorough" if nm not in ("EQ", "DD", "FR")
             and how == "gibbs" else "quick", branch_ms=500, maxdraws=120,
             track=how == "var", halflogs=how != "var")(cold)
        case("C29", f"warm-{nm}-{how}-twice", "one observation, one component, "
             f"one iteration and two warm starts of one, {how}, random start",
             name=nm, n=1, how=how, start="random", k=1, a=1, b=1, c=1,
             tier="thorough" if nm not in ("EQ", "DD", "FR", "BBin")
             and how == "gibbs" else "quick", branch_ms=500, maxdraws=120,
             track=how == "var", halflogs=how != "var")(warm)
    if var:
        for order in (("gibbs", "var"), ("var", "gibbs")):
            case("C29", f"apart-{nm}-{order[0]}", f"{order[0]} fit, then "
                 f"{order[1]} fit", name=nm, order=order, start="random",
                 k=1, branch_ms=500, maxdraws=120)(apart)
for pn, pD, n, D, k, how, start, priors, *rest in (
        (1, 1, 1, 1, 4, "gibbs", "random", 1, 0.7),
        (2, 1, 3, 2, 1, "gibbs", "random", 2),
        (3, 2, 2, 1, 1, "gibbs", "kmeans", 2),
        (2, 1, 3, 2, 1, "var", "random", 2),
        (1, 1, 1, 1, 2, "gibbs", "random", 1),
        (2, 1, 1, 1, 1, "gibbs", "kmeans", 1),
        (2, 1, 2, 1, 1, "gibbs", "kmeans", 0),
        (3, 2, 2, 1, 1, "gibbs", "kmeans", 0),
        (2, 1, 3, 2, 1, "gibbs", "random", 0),
        (2, 1, 2, 1, 1, "var", "kmeans", 0),
        (3, 2, 2, 1, 1, "var", "random", 0),
        (2, 1, 3, 2, 1, "var", "random", 0),
        (1, 1, 1, 1, 2, "var", "random", 1),
        (1, 2, 1, 2, 1, "var", "kmeans", 1),
        (1, 2, 1, 2, 1, "gibbs", "random", 1)):
    case("C29", f"any-{pn}-{pD}-{n}-{D}-{k}-{how}-{start}-{priors}",
         f"{pn} past observations of dimension {pD}, then {n} of dimension "
         f"{D}, {k} components, {how}, {start} start, priors "
         + ("from the data", "given", "from the data with their degrees of "
            "freedom")[priors] + (f", first weight {rest[0]} of 0.9"
                                  if rest else ""), pastn=pn, pastD=pD, n=n,
         D=D, k=k, how=how, start=start, priors=priors, branch_ms=500,
         most=rest[0] if rest else None,
         maxdraws=120, track=how == "var", halflogs=how != "var")(stub_cold)
