"""C30: a mixture is the Gaussian mixture with its weighting structure and the
parameters it was given"""
import numpy as np
from symx.harness import case
from checks import _mix, _real

# documented defaults
DEFAULT = {"DP": dict(alpha=1), "PY": dict(pyd=0, alpha=1),
           "GP": dict(a=1, b=1), "BiB": dict(x=0, alpha=1, a=1, b=1),
           "BiD": dict(a=0, alpha=1), "BBern": dict(p=1, alpha=1),
           "BBin": dict(n=0, alpha=1), "DD": dict(n=1, alpha=1),
           "EQ": dict(n=1), "FR": dict(n=1)}


def arbitrary(ctx, name, k):
    par = _real.params(ctx, name, k)
    if name == "DD":
        par["alpha"] = ctx.arr([ctx.pos(f"alpha{j}") for j in range(k)])
    return par


def pair(ctx, name, par, given=None, mix=None, given_mix=None):
    mm = ctx.load("pyrichlet.mixture_models")
    wm = ctx.load("pyrichlet.weight_models")
    a = getattr(mm, _real.MIX[name][0])(rng=ctx.rng("g"), **(
        par if given is None else given), **(given_mix or {}))
    s = getattr(wm, _real.STRUCT[name])(rng=ctx.rng("g"), **par)
    b = mm.BaseGaussianMixture(weight_model=s, rng=s._rng, **(mix or {}))
    if name in ("DD", "EQ", "FR"):
        b.n = par["n"]
    return a, b


def draws(ctx, w, k):
    out = list(w.random(k))
    out += list(w.complete(k + 1))
    w.fit(ctx.intarr([0] + [k - 1]))
    out += list(w.random())
    out += list(w.complete(k + 1))
    w.reset()
    out += list(w.random(k))
    return out


# parameters at the edge of their range, falsy ones included
EDGES = {"PY": {"alpha": [0], "pyd": [0]}, "BiB": {"x": [0, 1]},
         "BBern": {"p": [0, 1]}, "BBin": {"n": [0, 2]}, "BiD": {"a": [0]}}


def weights(ctx, name, k, default, edge=None):
    par = DEFAULT[name] if default else arbitrary(ctx, name, k)
    if edge:
        par[edge[0]] = edge[1]
    a, b = pair(ctx, name, par, {} if default else None)
    if default and name in ("DD", "EQ", "FR"):
        k = 1
    if not default or k > 1:
        ctx.check(getattr(a, "n", None) == getattr(b, "n", None) or
                  name == "BBin", "number of components")
    x, y = draws(ctx, a.weight_model, k), draws(ctx, b.weight_model, k)
    ctx.eq_all(x, y, "weights follow the parameters of the mixture")


def var_weights(ctx, name, k, default):
    par = DEFAULT[name] if default else arbitrary(ctx, name, k)
    a, b = pair(ctx, name, par, {} if default else None)
    cols = [_mix.simplex(ctx, f"r{i}_", k) for i in range(2)]
    R = ctx.arr([[c[j] for c in cols] for j in range(k)])
    out = []
    for m in (a, b):
        w = m.weight_model
        w.fit_variational(R)
        r = [w.variational_mean_log_p_d__w(), w.variational_mean_log_p_w(),
             w.variational_mean_log_q_w()]
        for j in range(k):
            r += [w.variational_mean_w_j(j), w.variational_mean_log_w_j(j)]
        out.append(r)
    ctx.eq_all(out[0], out[1], "expected weights follow the parameters of "
               "the mixture")


def settings(ctx, name, total, burn, sub, priors, how):
    """priors and iterations reach the fit"""
    par = _real.params(ctx, name, 1)
    mix = dict(total_iter=total, burn_in=burn)
    if sub is not None:
        mix["subsample_steps"] = sub
    if priors == "given":
        mix.update(_mix.priors(ctx, 1)[0])
    elif priors == "some":
        mix.update(mu_prior=ctx.arr([ctx.real("mu")]),
                   psi_prior=ctx.arr([[ctx.pos("psi")]]))
    a, b = pair(ctx, name, par, None, mix, mix)
    n = 1 if priors != "none" else 2
    ys = _mix.data(ctx, n, 1)
    if n == 2:
        ctx.assume(ys[0][0] != ys[1][0])
    for m in (a, b):
        if hasattr(m, "_calc_elbo"):
            m._calc_elbo = iter(range(1000)).__next__
        w = m.weight_model
        complete = w.complete

        def capped(size, complete=complete):
            if type(size) is int and size > 1:
                raise _real.PathCut("more weights than the bound",
                                    bound=True)
            return complete(size)
        w.complete = capped
    ra = _real.fit(ctx, a, ys, how, 1, "random")
    rb = _real.fit(ctx, b, ys, how, 1, "random")
    ctx.eq_all(ra, rb, "a fit follows the parameters of the mixture")
    if how == "gibbs":
        ctx.check(len(a.get_sim_params()) ==
                  len(range(0, total - burn, sub or 1)),
                  "iterations asked for")


def defaults(ctx, name):
    mm = ctx.load("pyrichlet.mixture_models")
    m = getattr(mm, _real.MIX[name][0])(rng=1)
    ctx.check((m.total_iter, m.burn_in, m.subsample_steps) == (1000, 100, 1),
              "documented iterations")
    ctx.check((m.mu_prior, m.lambda_prior, m.psi_prior, m.nu_prior) ==
              (None, 1, None, None), "documented priors")


def structure_defaults(ctx, name):
    wm = ctx.load("pyrichlet.weight_models")
    cls = getattr(wm, _real.STRUCT[name])
    k = 1 if name in ("DD", "EQ", "FR") else 2
    x = draws(ctx, cls(rng=ctx.rng("g")), k)
    y = draws(ctx, cls(rng=ctx.rng("g"), **DEFAULT[name]), k)
    ctx.eq_all(x, y, "documented parameters of the structure")


def p_method(ctx, method):
    par = dict(_real.params(ctx, "BiB"), p_method=method)
    a, b = pair(ctx, "BiB", par)
    ctx.eq_all(draws(ctx, a.weight_model, 2), draws(ctx, b.weight_model, 2),
               "weights follow the method of the mixture")


for nm, es in EDGES.items():
    for e, xs in es.items():
        for x in xs:
            case("C30", f"edge-{nm}-{e}-{x}", f"{e} = {x}", name=nm, k=2,
                 default=0, edge=(e, x), branch_ms=500)(weights)
for mt in ("geometric", "static"):
    case("C30", f"method-{mt}", f"{mt} updates", method=mt,
         branch_ms=500)(p_method)
for nm, (_, _, var) in _real.MIX.items():
    case("C30", f"structure-{nm}", "defaults", name=nm,
         branch_ms=500)(structure_defaults)
    case("C30", f"defaults-{nm}", "defaults", name=nm)(defaults)
    for k in (1, 2, 3):
        for default in (0, 1):
            if default and k != 2:
                continue
            case("C30", f"weights-{nm}-{k}-{default}", f"{k} weights, "
                 "fit and reset", name=nm, k=k, default=default,
                 tier="thorough" if k == 3 and nm in (
                     "BBern", "BiD", "BBin") else "quick",
                 branch_ms=500)(weights)
            if var:
                case("C30", f"expected-{nm}-{k}-{default}", f"{k} components",
                     name=nm, k=k if not default or nm not in (
                         "DD", "EQ", "FR") else 1, default=default,
                     track=True, halflogs=False)(var_weights)
    for total, burn, sub, priors in ((1, 0, None, "given"),
                                     (1, 0, None, "some"),
                                     (1, 0, 1, "none"), (2, 1, None, "some"),
                                     (3, 0, 2, "some")):
        for how in ("gibbs", "var"):
            if how == "var" and (not var or (burn or sub == 2)):
                continue
            if nm == "BBin" and sub == 2:
                total, sub = 2, 2
            slow = how == "gibbs" and total > 1 and nm in ("BBern", "BiD")
            case("C30", f"settings-{nm}-{how}-{total}-{burn}-{sub}-{priors}",
                 f"{total} iterations, burn-in {burn}, every {sub or 1}, "
                 f"priors {priors}", name=nm, total=total, burn=burn, sub=sub,
                 priors=priors, how=how, branch_ms=500, maxdraws=60,
                 tier="thorough" if slow else "quick",
                 track=how == "var", halflogs=how != "var")(settings)
