"""C25: forms of the observations"""
import numpy as np
import pandas as pd
from symx.harness import case
from checks import _mix


def give(ctx, ys, form, name="c"):
    """the observations in one of the accepted forms"""
    D = len(ys[0])
    if form == "array":
        return ctx.arr(ys)
    if form == "list":
        return [list(y) for y in ys]
    if form == "flat-array":
        return ctx.arr([y[0] for y in ys])
    if form == "flat-list":
        return [y[0] for y in ys]
    if form == "scalar":
        return ys[0][0]
    if form == "series":
        return pd.Series(np.asarray(ctx.arr([y[0] for y in ys])), name=name)
    if form == "unnamed":
        return pd.Series(np.asarray(ctx.arr([y[0] for y in ys])),
                         index=[f"i{9 - t}" for t in range(len(ys))])
    df = pd.DataFrame(np.asarray(ctx.arr(ys)),
                      columns=[f"{name}{D - t}" for t in range(D)])
    if form == "indexed":
        # neither sorted nor starting at zero
        df.index = [30 - 7 * t for t in range(len(ys))]
    if form == "repeated":
        # repeated row and column names
        df.index = [1] * len(ys)
        df.columns = ["c"] * D
    return df


def content(a):
    if isinstance(a, (pd.DataFrame, pd.Series)):
        a = a.to_numpy()
    return [v for v in np.asarray(a, dtype=object).ravel()]


def spoil(a):
    """the caller changes the observations afterwards"""
    if isinstance(a, pd.DataFrame):
        a.iloc[0, 0] = 1234.5
    elif isinstance(a, pd.Series):
        a.iloc[0] = 1234.5
    elif isinstance(a, list):
        a[0] = [1234.5] * len(a[0]) if isinstance(a[0], list) else 1234.5
    elif isinstance(a, np.ndarray) and a.ndim == 1:
        a[0] = 1234.5
    elif isinstance(a, np.ndarray) and a.ndim == 2:
        a[0, 0] = 1234.5


def build(ctx, D, k, kw, how):
    _mix.var_stub(ctx, k) if how == "var" and not hasattr(ctx, "vlog") \
        else None
    wm = _mix.stub(ctx, k, twin=ctx.twin)
    m = _mix.mixture(ctx, wm, total_iter=1, **kw)
    if hasattr(m, "_calc_elbo"):
        m._calc_elbo = lambda: 0
    return m, wm


def run(ctx, m, how, arg, k):
    if how == "var":
        m.fit_variational(arg, n_groups=k, init_method="random", tol=-1)
    else:
        m.fit_gibbs(arg, init_groups=k, init_method="random",
                    show_progress=False)


def results(ctx, m, how):
    if how == "var":
        out = [v for r in m.var_d for v in r]
        for mu, lam, W, nu in m.var_theta:
            out += list(mu) + [v for r in np.asarray(W) for v in r]
            out += [lam, nu]
        out += [int(v) for v in m.var_map_cluster()]
        return out
    out = []
    for s in m.get_sim_params() + [m.map_sim_params]:
        out += [int(v) for v in s["d"]] + list(s["w"]) + list(s["u"])
        for j in range(len(s["w"])):
            mu, sig = s["theta"][j]
            out += list(mu) + [v for r in np.asarray(sig) for v in r]
    out.append(m.map_log_likelihood)
    return out + [v for v in np.asarray(
        m.gibbs_eap_affinity_matrix()).ravel()]


def fitform(ctx, n, D, k, how, form, data=False):
    kw, pr = _mix.priors(ctx, D) if not data else ({}, None)
    ys = _mix.data(ctx, n, D)
    if data:
        for t in range(D):
            ctx.assume(ys[0][t] != ys[1][t])
    ctx.twin = None
    a, wm = build(ctx, D, k, kw, how)
    run(ctx, a, how, give(ctx, ys, "array"), k)
    ctx.twin = wm
    b, _ = build(ctx, D, k, kw, how)
    arg = give(ctx, ys, form)
    run(ctx, b, how, arg, k)
    ctx.eq_all(content(arg), [v for y in ys for v in y],
               "the observations passed are not modified")
    want = results(ctx, a, how)
    ctx.eq_all(results(ctx, b, how), want, "the same fit whatever the form "
               "of the observations")
    ctx.check(b.y.shape == (n, D), "observations by rows")
    spoil(arg)
    ctx.eq_all([v for r in b.y for v in r], [v for y in ys for v in y],
               "the fitted observations are a copy")
    ctx.eq_all(results(ctx, b, how), want, "later changes of the data passed "
               "do not reach the fit")


def evaluate(ctx, D, m, how, form):
    """new points in any form"""
    k = 2 if m == 1 else 1
    if how == "var":
        mix = _mix.var_state(ctx, 1, D, k, D)[0]
        fs = [("density", mix.var_eap_density), ("map", mix.var_map_density),
              ("cluster", mix.var_map_cluster),
              ("affinity", mix.var_eap_affinity_matrix)]
    else:
        kw, pr = _mix.priors(ctx, D)
        ctx.twin = None
        mix, wm = build(ctx, D, k, kw, how)
        run(ctx, mix, how, ctx.arr(_mix.data(ctx, 1, D)), k)
        fs = [("density", mix.gibbs_eap_density),
              ("map", mix.gibbs_map_density),
              ("cluster", mix.gibbs_map_cluster),
              ("affinity", mix.gibbs_eap_affinity_matrix)]
    xs = _mix.data(ctx, m, D, "x")
    for what, f in fs:
        arg = give(ctx, xs, form)
        got = f(arg)
        ctx.eq_all(content(arg), [v for x in xs for v in x],
                   "the points passed are not modified")
        ctx.eq_all(np.asarray(got), np.asarray(f(ctx.arr(xs))),
                   f"the same {what} whatever the form of the points")


def whole(ctx, n, D, k, how, form, first):
    """some or all of the observations are whole numbers"""
    kw, pr = _mix.priors(ctx, D)
    ys = [[3 * D - 4 * i + t for t in range(D)] for i in range(n)]
    if first:
        ys[1:] = _mix.data(ctx, n - 1, D)
    ctx.twin = None
    a, wm = build(ctx, D, k, kw, how)
    run(ctx, a, how, ctx.arr([[v if i >= first and first else float(v)
                               for v in y] for i, y in enumerate(ys)]), k)
    ctx.twin = wm
    b, _ = build(ctx, D, k, kw, how)
    if form == "list":
        arg = [list(y) for y in ys]
    elif form == "flat-list":
        arg = [y[0] for y in ys]
    else:
        arg = np.array(ys)
        if form == "frame":
            arg = pd.DataFrame(arg)
        if form == "series":
            arg = pd.Series(arg[:, 0])
        if form == "flat-array":
            arg = arg[:, 0]
    run(ctx, b, how, arg, k)
    ctx.eq_all(results(ctx, b, how), results(ctx, a, how),
               "the same fit for whole numbers as for those of type float")
    xs = [[2], [5]] if D == 1 else [[2, -1], [0, 3]]
    f = "gibbs" if how == "gibbs" else "var"
    for g in ("_eap_density", "_map_cluster", "_eap_affinity_matrix"):
        ctx.eq_all(np.asarray(getattr(b, f + g)(np.array(xs))),
                   np.asarray(getattr(b, f + g)(np.array(xs, dtype=float))),
                   f"{g[1:]}: whole numbers are numbers")
        ctx.eq_all(np.asarray(getattr(b, f + g)(xs)),
                   np.asarray(getattr(b, f + g)(np.array(xs, dtype=float))),
                   f"{g[1:]}: whole numbers in a list are numbers")


FORMS = {1: ("list", "flat-array", "flat-list", "series", "unnamed", "frame",
             "indexed", "repeated", "array"),
         2: ("list", "frame", "indexed", "repeated", "array")}
for D in (1, 2):
    for form in FORMS[D]:
        for n, k, how in ((1, 1, "gibbs"), (2, 1, "gibbs"), (1, 2, "gibbs"),
                          (1, 1, "var"), (2, 1, "var")):
            if D == 2 and k == 2 and form != "frame":
                continue
            case("C25", f"fit-{how}-{n}-{D}-{k}-{form}", f"{n} observations "
                 f"of dimension {D} as {form}, {k} components ({how})", n=n,
                 D=D, k=k, how=how, form=form, branch_ms=500, maxdraws=400,
                 track=how == "var", halflogs=how != "var")(fitform)
        if D == 1:
            case("C25", f"fit-data-{D}-{form}", f"priors from the data as "
                 f"{form}", n=2, D=D, k=1, how="gibbs", form=form, data=True,
                 branch_ms=500, maxdraws=400)(fitform)
        for how in ("gibbs", "var"):
            for m in (1, 2):
                case("C25", f"points-{how}-{D}-{m}-{form}", f"{m} new points "
                     f"of dimension {D} as {form} ({how})", D=D, m=m, how=how,
                     form=form, branch_ms=500, maxdraws=400,
                     track=how == "var", halflogs=how != "var")(evaluate)
for how in ("gibbs", "var"):
    case("C25", f"points-{how}-1-1-scalar", f"a new number ({how})", D=1, m=1,
         how=how, form="scalar", branch_ms=500, maxdraws=400,
         track=how == "var", halflogs=how != "var")(evaluate)
    for n, D, k, form, first in ((2, 1, 1, "list", 1), (2, 1, 1, "list", 0),
                                 (2, 1, 1, "flat-list", 1),
                                 (3, 1, 1, "flat-list", 1),
                                 (2, 1, 1, "array", 0),
                                 (2, 1, 1, "flat-array", 0),
                                 (2, 1, 1, "series", 0),
                                 (2, 1, 1, "frame", 0), (2, 2, 1, "list", 1),
                                 (3, 2, 1, "array", 0)):
        if how == "var" and D == 2 and first:
            continue
        case("C25", f"whole-{how}-{n}-{D}-{form}-{first}", f"{n} observations "
             f"of dimension {D} as {form}, " + ("the first" if first else
             "all") + f" of them whole numbers ({how})", n=n, D=D, k=k,
             how=how, form=form, first=first, branch_ms=500, maxdraws=400,
             track=how == "var", halflogs=how != "var")(whole)
