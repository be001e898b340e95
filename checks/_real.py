"""The mixtures users construct, with their own weighting structures."""
import numpy as np
from symx.engine import PathCut

# name -> class, what to pass, variational support
MIX = {
    "DP": ("DirichletProcessMixture", ("alpha",), True),
    "PY": ("PitmanYorMixture", ("pyd", "alpha"), True),
    "GP": ("GeometricProcessMixture", ("a", "b"), True),
    "BiB": ("BetaInBetaMixture", ("x", "alpha", "a", "b"), False),
    "BiD": ("BetaInDirichletMixture", ("a", "alpha"), False),
    "BBern": ("BetaBernoulliMixture", ("p", "alpha"), False),
    "BBin": ("BetaBinomialMixture", ("n", "alpha"), False),
    "DD": ("DirichletDistributionMixture", ("n", "alpha"), True),
    "EQ": ("EqualWeightedMixture", ("n",), True),
    "FR": ("FrequencyWeightedMixture", ("n",), True),
}
STRUCT = {"DP": "DirichletProcess", "PY": "PitmanYorProcess",
          "GP": "GeometricProcess", "BiB": "BetaInBeta",
          "BiD": "BetaInDirichlet", "BBern": "BetaBernoulli",
          "BBin": "BetaBinomial", "DD": "DirichletDistribution",
          "EQ": "EqualWeighting", "FR": "FrequencyWeighting"}


def params(ctx, name, k=2, tag=""):
    """arbitrary parameters of the weighting structure"""
    out = {}
    for p in MIX[name][1]:
        if p == "n":
            out[p] = k
        elif p in ("pyd", "x", "p"):
            out[p] = ctx.real(p + tag, 0, 1)
        elif p == "alpha" and name == "DD":
            out[p] = 1
        else:
            out[p] = ctx.pos(p + tag)
    return out


def build(ctx, name, rng=None, par=None, D=1, most=2, **kw):
    """the mixture; executions that need more than `most` weights are outside
    the bounds"""
    mm = ctx.load("pyrichlet.mixture_models")
    kw.setdefault("total_iter", 1)
    kw.setdefault("burn_in", 0)
    if kw.pop("priors", True):
        kw.setdefault("mu_prior", [0] * D)
        kw.setdefault("psi_prior", [[int(a == b) for b in range(D)]
                                    for a in range(D)])
        kw.setdefault("nu_prior", D)
    m = getattr(mm, MIX[name][0])(**(par or {}), rng=rng, **kw)
    if hasattr(m, "_calc_elbo"):
        # only decides when to stop (C21): not expanded here
        values = iter(range(1000))
        m._calc_elbo = lambda: next(values)
    complete = m.weight_model.complete

    def capped(size):
        if type(size) is int and size > most:
            raise PathCut("more weights than the bound", bound=True)
        return complete(size)
    m.weight_model.complete = capped
    return m


def chain(m, start=0):
    """everything the Gibbs run reports, flattened"""
    out = []
    for s in list(m.get_sim_params())[start:] + [m.map_sim_params]:
        out += [int(v) for v in s["d"]] + list(s["w"]) + list(s["u"])
        for j in range(len(s["w"])):
            mu, sig = s["theta"][j]
            out += list(mu) + [v for r in np.asarray(sig) for v in r]
    out.append(m.map_log_likelihood)
    out += [int(v) for v in m.get_n_groups()]
    out += [int(v) for v in m.get_n_theta()]
    out += [v for v in np.asarray(m.gibbs_eap_affinity_matrix()).ravel()]
    return out


def variational(m):
    out = [v for r in m.var_d for v in r]
    for mu, lam, W, nu in m.var_theta:
        out += list(mu) + [v for r in np.asarray(W) for v in r] + [lam, nu]
    wm = m.weight_model
    for j in range(len(m.var_theta)):
        out += [wm.variational_mean_w_j(j), wm.variational_mean_log_w_j(j)]
    return out


def fit(ctx, m, ys, how, k, start, warm=False):
    y = ctx.arr(ys)
    if how == "var":
        kw = dict(warm_start=True) if warm else \
            dict(n_groups=k, init_method=start)
        m.fit_variational(y, tol=-1, **kw)
        return variational(m)
    kw = dict(warm_start=True) if warm else \
        dict(init_groups=k, init_method=start)
    m.fit_gibbs(y, show_progress=False, **kw)
    return chain(m)
