"""C24: results need their fit, invalid requests are refused and change
nothing"""
import numpy as np
from symx.harness import case
from checks import _mix, _real, _wm

GIBBS = ("gibbs_eap_density", "gibbs_map_density",
         "gibbs_eap_affinity_matrix", "gibbs_map_cluster",
         "gibbs_eap_spectral_consensus_cluster")
VAR = ("var_eap_density", "var_map_density", "var_eap_affinity_matrix",
       "var_map_cluster", "var_eap_spectral_consensus_cluster")


def locked(ctx, m, names, pts, why):
    exc = ctx.load("pyrichlet.exceptions").NotFittedError
    for f in names:
        for y in (None, pts):
            ctx.raises(exc, lambda: getattr(m, f)(y),
                       f"{f} {why}")
        if f.endswith("density"):
            ctx.raises(exc, lambda: getattr(m, f)(dim=0),
                       f"{f} of a dimension {why}")
            ctx.raises(exc, lambda: getattr(m, f)(pts, component=0),
                       f"{f} of a component {why}")
        if f.endswith("map_cluster"):
            ctx.raises(exc, lambda: getattr(m, f)(full=True),
                       f"{f} with uncertainty {why}")


def unlocked(ctx, m, names, pts, n, why):
    for f in names:
        if "spectral" in f or "var_map_density" == f:
            continue
        got = ctx.no_raise(lambda: getattr(m, f)(pts), f"{f} {why}")
        ctx.check(len(got) == n, f"{f} {why}: a value per point")


def gate(ctx, name, how, start):
    """neither fit unlocks the results of the other"""
    par = _real.params(ctx, name, 1)
    m = _real.build(ctx, name, ctx.rng("g"), par)
    pts = ctx.arr(_mix.data(ctx, 1, 1, "p"))
    locked(ctx, m, GIBBS + VAR, pts, "needs a fit")
    ctx.check(not ctx.draws() or name == "GP",
              "refused requests draw nothing")
    _real.fit(ctx, m, _mix.data(ctx, 1, 1), how, 1, start)
    if how == "gibbs":
        unlocked(ctx, m, GIBBS, pts, 1, "after its fit")
        if start != "variational":
            locked(ctx, m, VAR, pts, "needs a variational fit")
        else:
            unlocked(ctx, m, VAR, pts, 1, "after its fit")
    else:
        unlocked(ctx, m, VAR, pts, 1, "after its fit")
        locked(ctx, m, GIBBS, pts, "needs a Gibbs fit")


def refused(ctx, name, past, first):
    """a refused fit leaves everything as it was"""
    par = _real.params(ctx, name, 1)
    m = _real.build(ctx, name, ctx.rng("g"), par)
    ys = _mix.data(ctx, 1, 1)
    exc = ctx.load("pyrichlet.exceptions").NotFittedError
    if past:
        before = _real.fit(ctx, m, ys, past, 1, "random")
    pts = ctx.arr(_mix.data(ctx, 1, 1, "p"))
    other = _mix.data(ctx, 2, 1, "z")
    z = ctx.arr(other)
    n = len(ctx.draws())
    bad = [(TypeError, lambda m: m.fit_gibbs("observations"), "Gibbs text"),
           (TypeError, lambda m: m.fit_gibbs(None), "Gibbs nothing"),
           (TypeError, lambda m: m.fit_gibbs(3), "Gibbs number"),
           (TypeError, lambda m: m.fit_variational("y", n_groups=1), "text"),
           (TypeError, lambda m: m.fit_variational({1: 2}, n_groups=1),
            "dictionary"),
           (AttributeError, lambda m: m.fit_gibbs(z, init_method="means"),
            "unknown Gibbs start"),
           (AttributeError, lambda m: m.fit_gibbs(
               z, init_method="k-means", init_groups=2),
            "unknown Gibbs start with groups"),
           (AttributeError, lambda m: m.fit_variational(
               z, n_groups=1, init_method="variational"),
            "unknown variational start")]
    if not hasattr(m, "n"):
        bad.append((AttributeError, lambda m: m.fit_variational(z),
                    "no number of groups"))
    for e, f, what in bad if first is None else [bad[first]]:
        ctx.raises(e, lambda: f(m), "refused: " + what)
    ctx.check(len(ctx.draws()) == n, "a refused fit draws nothing")
    if past != "gibbs":
        locked(ctx, m, GIBBS, pts, "after a refused fit")
    if past != "var":
        locked(ctx, m, VAR, pts, "after a refused fit")
    if past:
        after = _real.variational(m) if past == "var" else _real.chain(m)
        ctx.eq_all(after, before, "a refused fit keeps the past one")
        f = past + "_eap_density"
        if past == "var":
            f = "var_map_cluster"
            ctx.check(len(m.var_map_cluster()) == 1, "and its data")
        got = getattr(m, f)()
        want = getattr(m, f)(ctx.arr(ys))
        ctx.eq_all([v for v in got], [v for v in want], "and its data")


def unsupported(ctx, name):
    """structures without a variational posterior say so"""
    m = _real.build(ctx, name, ctx.rng("g"), _real.params(ctx, name, 1))
    pts = ctx.arr(_mix.data(ctx, 1, 1, "p"))
    ctx.raises(NotImplementedError, lambda: m.fit_variational(
        ctx.arr(_mix.data(ctx, 1, 1)), n_groups=1, init_method="random"),
        "no variational posterior")
    locked(ctx, m, VAR + GIBBS, pts, "needs a fit")
    w = m.weight_model
    for f in (lambda: w.fit_variational(ctx.arr([[1]])),
              lambda: w.variational_mean_w_j(0),
              lambda: w.variational_mean_log_w_j(0),
              lambda: w.variational_mode_w_j(0),
              lambda: w.variational_mean_log_p_d__w(),
              lambda: w.variational_mean_log_p_w(),
              lambda: w.variational_mean_log_q_w()):
        ctx.raises(NotImplementedError, f, "no variational posterior")


class Crash(Exception):
    pass


def interrupted(ctx, how, at, total, burn):
    """a first fit that does not end unlocks nothing"""
    if how == "var":
        _mix.var_stub(ctx, 2)
    wm = _mix.stub(ctx, 2, fixed=[0.5, 0.5])
    kw, _ = _mix.priors(ctx, 1)
    m = _mix.mixture(ctx, wm, total_iter=total, burn_in=burn, **kw)
    if hasattr(m, "_calc_elbo"):
        values = iter(range(100))
        m._calc_elbo = lambda: next(values)
    f = "fit_variational" if how == "var" else "fit"
    real, calls = getattr(wm, f), []

    def crash(*a):
        calls.append(1)
        if len(calls) > at:
            raise Crash
        return real(*a)
    setattr(wm, f, crash)
    y = ctx.arr(_mix.data(ctx, 1 if how == "var" or at > 1 else 2, 1))
    if how == "var":
        ctx.raises(Crash, lambda: m.fit_variational(
            y, n_groups=2, init_method="random", tol=-1), "interrupted")
    else:
        ctx.raises(Crash, lambda: m.fit_gibbs(
            y, init_groups=2, init_method="random", show_progress=False),
            "interrupted")
    locked(ctx, m, GIBBS + VAR, ctx.arr(_mix.data(ctx, 1, 1, "p")),
           "after an interrupted fit")


def points(ctx, name, how):
    """points of an invalid type are refused after a fit, too"""
    m = _real.build(ctx, name, ctx.rng("g"), _real.params(ctx, name, 1))
    before = _real.fit(ctx, m, _mix.data(ctx, 1, 1), how, 1, "random")
    for bad in ("points", {1: 2}, (1, 2)):
        for f in (GIBBS if how == "gibbs" else VAR):
            if f == "var_map_density":
                continue
            ctx.raises(TypeError, lambda: getattr(m, f)(bad),
                       "points of an invalid type")
    after = _real.variational(m) if how == "var" else _real.chain(m)
    ctx.eq_all(after, before, "a refused evaluation changes nothing")


def periods(ctx, name):
    """burn-in shorter than the run"""
    mm = ctx.load("pyrichlet.mixture_models")
    total, burn = ctx.int("total", range(6)), \
        ctx.int("burn", range(6))
    total, burn = int(total), int(burn)
    cls = getattr(mm, _real.MIX[name][0])

    def f():
        return cls(total_iter=total, burn_in=burn, rng=1)
    if total > burn:
        m = ctx.no_raise(f, "a run longer than its burn-in")
        ctx.check((m.total_iter, m.burn_in) == (total, burn),
                  "the iterations asked for")
    else:
        ctx.raises(AssertionError, f, "a run not longer than its burn-in")


def parameters(ctx, kind):
    mm = ctx.load("pyrichlet.mixture_models")
    wm = ctx.load("pyrichlet.weight_models")
    if kind == "PY":
        a, d = ctx.real("alpha"), ctx.real("pyd", 0, 1, lo_open=False)
        for f in (lambda: wm.PitmanYorProcess(pyd=d, alpha=a, rng=1),
                  lambda: mm.PitmanYorMixture(pyd=d, alpha=a, rng=1)):
            if bool(a > -d):
                ctx.no_raise(f, "alpha above -pyd")
            else:
                ctx.raises(AssertionError, f, "alpha not above -pyd")
    if kind == "BiB":
        for f in (lambda p: wm.BetaInBeta(p_method=p, rng=1),
                  lambda p: mm.BetaInBetaMixture(p_method=p, rng=1)):
            for bad in ("static ", "uniform", None, 0):
                ctx.raises(ValueError, lambda: f(bad), "unknown method")
            for ok in ("geometric", "static"):
                ctx.no_raise(lambda: f(ok), "known method")
    if kind == "DD":
        for f in (lambda n: wm.DirichletDistribution(n=n, rng=1),
                  lambda n: mm.DirichletDistributionMixture(n=n, rng=1)):
            for bad in (2.0, "2", None):
                ctx.raises(AssertionError, lambda: f(bad), "n not an integer")
            ctx.no_raise(lambda: f(2), "n an integer")


def unfitted(ctx, name):
    """a structure without a fit needs a size"""
    m, _ = _wm.make(ctx, name, k=2)
    n = len(ctx.draws())
    if name in _wm.FINITE:
        w = ctx.no_raise(lambda: m.random(), "finite structures have a size")
        ctx.check(len(w) == 2, "finite structures have a size")
        return
    ctx.raises(ValueError, lambda: m.random(), "no size and no fit")
    ctx.check(len(ctx.draws()) == n, "a refused draw draws nothing")
    m.random(2)
    ctx.raises(ValueError, lambda: m.random(), "no size and no fit")
    ctx.check(len(m.get_weights()) == 2, "a refused draw changes nothing")
    m.fit(ctx.intarr([0, 1]))
    ctx.no_raise(lambda: m.random(), "fitted structures have a size")
    m.reset()
    ctx.raises(ValueError, lambda: m.random(), "no size after a reset")


for nm, (_, _, var) in _real.MIX.items():
    for how, start in (("gibbs", "random"), ("gibbs", "kmeans"),
                       ("gibbs", "variational"), ("var", "random"),
                       ("var", "kmeans")):
        if not var and "var" in (how, start[:3]):
            continue
        case("C24", f"gate-{nm}-{how}-{start}", f"{how} fit, {start} start",
             name=nm, how=how, start=start, branch_ms=500, maxdraws=60,
             track=how == "var", halflogs=how != "var")(gate)
    for past in ("", "gibbs", "var"):
        if past == "var" and not var:
            continue
        for first in ((None,) if past != "gibbs" else (None, 5, 7, 8)):
            if first == 8 and nm in ("DD", "EQ", "FR"):
                continue
            case("C24", f"refused-{nm}-{past}-{first}",
                 f"refused fits after {past or 'no'} fit", name=nm, past=past,
                 first=first, branch_ms=500, maxdraws=60, track=past == "var",
                 halflogs=past != "var")(refused)
    if not var:
        case("C24", f"unsupported-{nm}", "variational fit", name=nm,
             branch_ms=500)(unsupported)
    for how in ("gibbs", "var"):
        if how == "gibbs" or var:
            case("C24", f"points-{nm}-{how}", "invalid points", name=nm,
                 how=how, branch_ms=500, track=how == "var",
                 halflogs=how != "var")(points)
    case("C24", f"periods-{nm}", "all iteration and burn-in numbers up to 5",
         name=nm)(periods)
for kd in ("PY", "BiB", "DD"):
    case("C24", f"parameters-{kd}", "constructor parameters",
         kind=kd)(parameters)
for nm in _wm.ALL:
    case("C24", f"unfitted-{nm}", "draw without a size", name=nm,
         branch_ms=500)(unfitted)
for how in ("gibbs", "var"):
    for at, total, burn in ((0, 1, 0), (1, 2, 0), (1, 2, 1), (2, 3, 1)):
        if how == "var" and (burn or at > 1):
            continue
        case("C24", f"interrupted-{how}-{at}-{total}-{burn}",
             f"fit of {total} iterations interrupted after {at}", how=how,
             at=at, total=total, burn=burn, branch_ms=500,
             track=how == "var", halflogs=how != "var")(interrupted)
