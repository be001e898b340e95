"""C18: Gibbs sampler: densities"""
import numpy as np
from symx.harness import case
from checks import _mix


def component(ctx, x, w, th, dims):
    mu, sig = th
    if dims is None:
        dims = range(len(mu))
    return w * ctx.normal_pdf(x, [mu[t] for t in dims],
                              [[sig[a][b] for b in dims] for a in dims])


def density(ctx, x, w, theta, dims, comp):
    return ctx.sum(component(ctx, x, w[j], theta[j], dims)
                   for j in (range(len(w)) if comp is None else [comp]))


def dens(ctx, D, k, T, dim, comp, periods, m, form, kind):
    kw, pr = _mix.priors(ctx, D)
    n = 1 if k > 1 else 2
    ys = _mix.data(ctx, n, D)
    wm = _mix.stub(ctx, k)
    mix = _mix.mixture(ctx, wm, total_iter=T, **kw)
    mix.fit_gibbs(ctx.arr(ys), init_groups=k,
                  init_method="random", show_progress=False)
    dims = None if dim is None else [int(t) for t in np.atleast_1d(dim)]
    p = D if dims is None else len(dims)
    if form == "fitted":
        arg = None
        xs = [[y[t] for t in (dims or range(D))] for y in ys]
    else:
        xs = _mix.data(ctx, m, p, "x")
        if form == "flat":
            arg = ctx.arr([x[0] for x in xs])
        elif form == "list":
            arg = [list(x) for x in xs]
        else:
            arg = ctx.arr(xs)
    if kind == "eap":
        got = mix.gibbs_eap_density(arg, dim=dim, component=comp,
                                    **({} if periods is None else
                                       {"periods": periods}))
        states = mix.get_sim_params()[-(periods or T):]
    else:
        got = mix.gibbs_map_density(arg, dim=dim, component=comp)
        states = [mix.map_sim_params]
    ctx.check(np.shape(got) == (len(xs),), "one density per point")
    for i, x in enumerate(xs):
        ctx.eq(got[i], ctx.sum(
            density(ctx, x, list(s["w"]), s["theta"], dims, comp)
            for s in states) / len(states),
            "mixture density averaged over the states")
    ctx.out("density", got)


OPT = []
for kind in ("eap", "map"):
    for D, dims in ((1, (None, 0)), (2, (None, 0, 1, [0], [1], [0, 1], [1, 0],
                                         np.int64(1), np.array([1]))),
                    (3, (None, 1, [0, 2], (2, 0)))):
        for dim in dims:
            for comp in (None, 0, 1):
                if D == 3 and comp == 0:
                    continue
                OPT.append((kind, D, 2, 1, dim, comp, None, 1, "array"))
            if D < 3:
                OPT.append((kind, D, 1, 1, dim, None, None, 1, "fitted"))
                OPT.append((kind, D, 2, 1, dim, np.int64(1), None, 2, "list"))
            if D == 1 or np.size(dim) == 1 and dim is not None:
                OPT.append((kind, D, 2, 1, dim, None, None, 2, "flat"))
for T, per in ((1, 1), (2, None), (2, 1), (2, 2), (2, 3), (2, 5), (3, 2), (3, 4), (3, None)):
    OPT.append(("eap", 1, 1, T, None, None, per, 1, "array"))
    OPT.append(("eap", 2, 1, T, 1, 0, per, 1, "array"))
    if T < 3:
        OPT.append(("eap", 1, 2, T, None, None, per, 1, "array"))
for T in (2, 3):
    OPT.append(("map", 1, 1, T, None, None, None, 1, "array"))
for kind, D, k, T, dim, comp, per, m, form in OPT:
    nm = f"{type(dim).__name__}{dim}".replace(" ", "") \
        if dim is not None else "all"
    case("C18", f"{kind}-{D}-{k}-{T}-{nm}-{comp}-{per}-{m}-{form}",
         f"dimension {D}, {k} weights, {T} iterations, dim={dim}, component="
         f"{comp}, periods={per}, {m} points ({form})", D=D, k=k, T=T,
         dim=dim, comp=comp, periods=per, m=m, form=form, kind=kind,
         branch_ms=500, maxdraws=400)(dens)
