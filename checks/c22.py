"""C22: variational densities"""
import numpy as np
from symx.harness import case
from checks import _mix


def scale(ctx, W, dims):
    """scale matrix of the marginal over dims"""
    if len(dims) == len(W):
        return [[W[a][b] for b in dims] for a in dims]
    S = ctx.inv(W)
    return ctx.inv([[S[a][b] for b in dims] for a in dims])


def log_student(ctx, x, mu, prec, nu):
    p = len(mu)
    d = [x[t] - mu[t] for t in range(p)]
    return ctx.lgamma((nu + p) / 2) - ctx.lgamma(nu / 2) \
        + ctx.log(ctx.det(prec)) / 2 - p * ctx.log(nu * ctx.pi) / 2 \
        - (nu + p) * ctx.log(1 + ctx.quad(d, prec) / nu) / 2


def log_normal(ctx, x, mu, prec):
    p = len(mu)
    d = [x[t] - mu[t] for t in range(p)]
    return ctx.log(ctx.det(prec)) / 2 - p * ctx.log(2 * ctx.pi) / 2 \
        - ctx.quad(d, prec) / 2


def dens(ctx, D, k, dim, comp, m, form, kind):
    mix, wm, ys, R, th = _mix.var_state(ctx, 2 if form == "fitted" else 1, D,
                                        k, D if kind == "map" else None)
    dims = list(range(D)) if dim is None else \
        [int(t) for t in np.atleast_1d(dim)]
    p = len(dims)
    if form == "fitted":
        arg = None
        xs = [[y[t] for t in dims] for y in ys]
    else:
        xs = _mix.data(ctx, m, p, "x")
        if form == "flat":
            arg = ctx.arr([x[0] for x in xs])
        elif form == "list":
            arg = [list(x) for x in xs]
        else:
            arg = ctx.arr(xs)
    f = mix.var_eap_density if kind == "eap" else mix.var_map_density
    got = f(arg, dim=dim, component=comp)
    ctx.check(np.shape(got) == (len(xs),), "one density per point")
    comps = list(range(k)) if comp is None else [int(comp)]
    parts = [f(arg, dim=dim, component=j) for j in comps] \
        if len(comps) > 1 else [got]
    for i, x in enumerate(xs):
        for j, part in zip(comps, parts):
            mu, lam, W, nu = th[j]
            c = [mu[t] for t in dims]
            V = scale(ctx, W, dims)
            if kind == "eap":
                q = nu + 1 - D
                s = q * lam / (1 + lam)
                want = ctx.log(ctx.vmean[j]) + log_student(
                    ctx, x, c, [[v * s for v in r] for r in V], q)
            else:
                want = ctx.log(ctx.vmode[j]) + log_normal(
                    ctx, x, c, [[v * (nu - D) for v in r] for r in V])
            ctx.eq(ctx.log(part[i]), want, "predictive density of a "
                   "component scaled by its weight" if kind == "eap" else
                   "density of a component at its mode scaled by its weight")
        if len(comps) > 1:
            ctx.eq(got[i], ctx.sum(q[i] for q in parts),
                   "density is the sum over the components")


OPT = []
for kind in ("eap", "map"):
    for D, dims in ((1, (None, 0)), (2, (None, 0, 1, [0], [1], [0, 1], [1, 0],
                                         np.int64(1), np.array([1]))),
                    (3, (None, 1, [0, 2], (2, 0)))):
        for dim in dims:
            tier = "thorough" if D == 3 and dim is None else "quick"
            OPT.append((kind, D, 1, dim, None, 1, "array", tier))
            OPT.append((kind, D, 2, dim, 1, 1, "array", tier))
            if D < 3:
                OPT.append((kind, D, 2, dim, None, 1, "array", tier))
                OPT.append((kind, D, 1, dim, None, 2, "fitted", tier))
                OPT.append((kind, D, 2, dim, 0, 2, "list", tier))
            if D == 1 or np.size(dim) == 1 and dim is not None:
                OPT.append((kind, D, 2, dim, np.int64(0), 2, "flat", tier))
for kind, D, k, dim, comp, m, form, tier in OPT:
    nm = f"{type(dim).__name__}{dim}".replace(" ", "") \
        if dim is not None else "all"
    case("C22", f"{kind}-{D}-{k}-{nm}-{comp}-{m}-{form}",
         f"dimension {D}, {k} arbitrary components, dim={dim}, component="
         f"{comp}, {m} points ({form})", D=D, k=k, dim=dim, comp=comp, m=m,
         form=form, kind=kind, branch_ms=500, maxdraws=400, tier=tier,
         track=True, halflogs=False)(dens)
