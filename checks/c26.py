"""C26: reproducibility: everything random comes from the generator given"""
import numpy as np
from symx.harness import case
from checks import _mix, _real, _wm


def clean(ctx, label):
    ctx.check(ctx.world.entropy == 0, label + ": no generator is seeded from "
              "the operating system")
    ctx.check(not ctx.world.global_draws, label + ": the global generator is "
              "not used", str(ctx.world.global_draws))


def once(ctx):
    """no random number is used twice"""
    seen = [(d.stream, d.index) for d in ctx.draws()]
    ctx.check(len(seen) == len(set(seen)), "no random number is used twice")


def mix(ctx, name, how, start, k, n, seed):
    par = _real.params(ctx, name, k)
    ys = _mix.data(ctx, n, 1)

    def one():
        rng = {"int": 11, "zero": 0}[seed] if seed != "gen" else ctx.rng("g")
        m = _real.build(ctx, name, rng, par)
        return m, _real.fit(ctx, m, ys, how, k, start)
    a, ra = one()
    once(ctx)
    clean(ctx, "fit")
    b, rb = one()
    ctx.eq_all(ra, rb, "the same seed gives the same fit")
    if n > 1:
        f = "var" if how == "var" else "gibbs"
        ctx.world.spectral.clear() if hasattr(ctx.world, "spectral") else None
        la = getattr(a, f + "_eap_spectral_consensus_cluster")(n_clusters=2)
        lb = getattr(b, f + "_eap_spectral_consensus_cluster")(n_clusters=2)
        ctx.check([int(v) for v in la] == [int(v) for v in lb],
                  "the same seed gives the same consensus")
    clean(ctx, "after the fit")


def interleaved(ctx, name, how, start, k, most):
    """another mixture in the same program changes nothing"""
    par = _real.params(ctx, name, k)
    ys = _mix.data(ctx, 1, 1)
    a = _real.build(ctx, name, ctx.rng("g"), par, most=most)
    ra = _real.fit(ctx, a, ys, how, k, start)
    ra += _real.fit(ctx, a, ys, how, k, start, warm=True)
    other = _real.params(ctx, name, k, "'")
    zs = _mix.data(ctx, 1, 1, "z")
    b = _real.build(ctx, name, ctx.rng("g"), par, most=most)
    c = _real.build(ctx, name, ctx.rng("h"), other, most=most)
    rb = _real.fit(ctx, b, ys, how, k, start)
    _real.fit(ctx, c, zs, how, k, start)
    rb += _real.fit(ctx, b, ys, how, k, start, warm=True)
    ctx.eq_all(ra, rb, "other mixtures do not reach a fit")


class Same:
    """the context, answering the same arbitrary parameter every time"""

    def __init__(self, ctx):
        self.ctx, self.known = ctx, {}

    def __getattr__(self, name):
        f = getattr(self.ctx, name)
        if name not in ("pos", "real", "choose", "int"):
            return f

        def g(n, *a, **k):
            if n not in self.known:
                self.known[n] = f(n, *a, **k)
            return self.known[n]
        return g


def structure(ctx, name, seed, d, k):
    same = Same(ctx)

    def one():
        rng = {"int": 11, "zero": 0}[seed] if seed != "gen" else ctx.rng("g")
        m, _ = _wm.make(same, name, k=k, rng=rng)
        out = [list(m.random(k)), list(m.complete(k + 1))]
        m.fit(ctx.intarr(d))
        out += [list(m.random()), list(m.complete(max(d) + 2)),
                [int(v) for v in m.random_assignment(1)]]
        return [v for r in out for v in r]
    a = one()
    once(ctx)
    b = one()
    ctx.eq_all(a, b, "the same seed gives the same draws")
    clean(ctx, "weighting structure")


def refused(ctx, name):
    mm = ctx.load("pyrichlet.mixture_models")
    wm = ctx.load("pyrichlet.weight_models")
    for bad in ("0", 1.5, [1], object()):
        ctx.raises(TypeError, lambda: getattr(mm, _real.MIX[name][0])(
            rng=bad), "an invalid generator is refused")
        ctx.raises(TypeError, lambda: getattr(wm, _real.STRUCT[name])(
            rng=bad), "an invalid generator is refused")
    ctx.check(ctx.world.entropy == 0, "a refused generator is not replaced")


SEEDS = (0, 1, 2, 2 ** 8, 2 ** 16 + 1, 2 ** 32, 2 ** 32 + 2, 2 ** 64)


def seeds(ctx, name, seeds):
    same = Same(ctx)
    w = [_wm.make(same, name, k=2, rng=r)[0].random(2) for r in seeds]
    for a in range(len(seeds)):
        for b in range(a):
            ctx.check(not all(ctx.identical(x, y)
                              for x, y in zip(w[a], w[b])),
                      "different seeds give different draws")


for nm, (_, _, var) in _real.MIX.items():
    case("C26", f"refused-{nm}", "invalid generators", name=nm)(refused)
    for how, start, k, n, seed, tier in (
            ("gibbs", "kmeans", 1, 1, "int", "quick"),
            ("gibbs", "random", 1, 1, "gen", "quick"),
            ("gibbs", "random", 2, 1, "zero", "quick"),
            ("gibbs", "kmeans", 1, 2, "int", "quick"),
            ("gibbs", "kmeans", 2, 2, "int", "thorough"),
            ("gibbs", "variational", 1, 1, "int", "quick"),
            ("var", "kmeans", 1, 1, "gen", "quick"),
            ("var", "random", 2, 1, "zero", "quick"),
            ("var", "kmeans", 1, 2, "int", "quick"),
            ("var", "kmeans", 2, 2, "int", "quick")):
        if not var and (how == "var" or start == "variational"):
            continue
        if nm in ("EQ", "FR", "PY", "GP") and how == "var" and k * n == 4:
            tier = "thorough"
        case("C26", f"mix-{nm}-{how}-{start}-{k}-{n}-{seed}", f"{n} "
             f"observations, {k} components, {how}, {start} start", name=nm,
             how=how, start=start, k=k, n=n, seed=seed, tier=tier,
             branch_ms=500, maxdraws=60, track=how == "var",
             halflogs=how != "var")(mix)
    for how, start in (("gibbs", "random"), ("var", "random")):
        if how == "var" and not var:
            continue
        case("C26", f"interleaved-{nm}-{how}", "two mixtures fitted in turns",
             most=1 if nm in ("BBern", "BiD") else 2, name=nm, how=how, start=start, k=1, branch_ms=500, maxdraws=90,
             track=how == "var", halflogs=how != "var")(interleaved)
for nm in ("DP", "PY", "GP", "BiB0", "BiBx", "BBernp", "BBinn", "BiDa", "DD"):
    case("C26", f"seeds-{nm}", f"of the seeds {SEEDS}", name=nm,
         seeds=SEEDS if nm != "BBernp" else SEEDS[3:6],
         branch_ms=500)(seeds)
for nm in _wm.ALL:
    for seed in ("int", "zero", "gen"):
        case("C26", f"structure-{nm}-{seed}", "draws, fit and draws",
             name=nm, seed=seed, d=[0, 1], k=2, branch_ms=500)(structure)
