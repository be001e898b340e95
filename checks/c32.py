"""C32: pair plot of the maximum a posteriori mixture"""
import numpy as np
from symx.harness import case
from checks import _mix
from checks.c19 import best

LEVEL = 5.991464547107979       # 95% quantile of a chi square, 2 df


def colour(v):
    v = v if isinstance(v, str) else tuple(float(x) for x in np.ravel(v))
    return {"k": "black"}.get(v, v)


def option(d, *names):
    for n in names:
        if n in d:
            return d[n]


def points(d):
    """(x, y, colour) of the points of a scatter call"""
    xs, ys = list(np.ravel(d["x"])), list(np.ravel(d["y"]))
    c = option(d, "c", "color", "facecolor", "facecolors")
    if not isinstance(c, str) and np.ndim(c) == 2:
        cs = [colour(r) for r in c]
        cs = cs * len(xs) if len(cs) == 1 else cs
    else:
        cs = [colour(c)] * len(xs)
    return list(zip(xs, ys, cs))


def dashed(d):
    return option(d, "linestyle", "ls") in ("--", "dashed") \
        or "--" in str(d.get("fmt", ""))


def plot(ctx, D, k, n, fixed, path, frame, grid,
         calm=False):
    ctx.world.grid = grid
    kw, pr = _mix.priors(ctx, D)
    ys = _mix.data(ctx, n, D)
    wm = _mix.stub(ctx, k, fixed=fixed, path=path, flat=True)
    if k > 1 and not any(path[0]):
        # later weights are below the slices: the last groups are the first
        ctx.world.slice_ranges = [(0.9, 0.95)]
    m = _mix.mixture(ctx, wm, total_iter=1, **kw)
    names = [f"col{t}" for t in range(D)] if frame else list(range(D))
    arg = ctx.arr(ys)
    if frame:
        import pandas as pd
        arg = pd.DataFrame(np.asarray(arg), columns=names)
    m.fit_gibbs(arg, init_groups=k, init_method="random" if k > n else "kmeans",
                show_progress=False)
    s = m.map_sim_params
    w = list(s["w"])
    mus = [list(s["theta"][j][0]) for j in range(k)]
    sig = [[list(r) for r in s["theta"][j][1]] for j in range(k)]
    for j in range(k):
        # not degenerate, so the replay can tell contours in floating point
        for a in range(D):
            ctx.assume(mus[j][a] >= -10)
            ctx.assume(mus[j][a] <= 10)
            ctx.assume(sig[j][a][a] <= 10)
            for b in range(a):
                ctx.assume(sig[j][a][a] * sig[j][b][b]
                           - sig[j][a][b] * sig[j][a][b] >= 0.1)
    if calm:
        for c in range(D):
            ctx.assume(ys[0][c] < ys[1][c])
        for j in range(k):
            for a in range(D):
                for b in range(a):
                    ctx.assume(sig[j][a][b] >= 0)
                    ctx.assume(sig[j][a][a] >= sig[j][a][b])
                    ctx.assume(sig[j][b][b] >= sig[j][a][b])
    if D > 1:
        # the usual format of numbers
        for c in range(D):
            lo, hi = ys[0][c], ys[0][c]
            for y in ys[1:]:
                lo, hi = (y[c], hi) if bool(y[c] < lo) else \
                    (lo, y[c] if bool(y[c] > hi) else hi)
            f = ctx.sum(w[j] * ctx.normal_pdf(
                [lo - (hi - lo) / 4], [mus[j][c]], [[sig[j][c][c]]])
                for j in range(k))
            ctx.assume(f >= 0.001)
            ctx.assume(f <= 99999)
    grp = [best(ctx, y, s)[0] for y in ys]
    used = sorted(set(grp))
    before = _mix.state(s)
    m.gibbs_map_pairplot()
    ctx.check(len(ctx.world.figures) == 1, "one figure")
    axes = ctx.world.figures[0]
    ctx.check(axes.shape == (D, D), "an axis for each pair of features")
    for t in range(D):
        ctx.check([str(v) for a, v in axes[D - 1, t].drawn
                   if a == "xlabel"] == [str(names[t])],
                  "columns are labelled below")
        ctx.check([str(v) for a, v in axes[t, 0].drawn
                   if a == "ylabel"] == [str(names[t])],
                  "rows are labelled on the left")
    seen = [None] * n
    for r in range(D):
        for c in range(D):
            if r == c:
                continue
            got = [p for a, d in axes[r, c].drawn if a == "scatter"
                   for p in points(d)]
            ctx.check(len(got) == n, "every observation is drawn")
            for i, y in enumerate(ys):
                at = [q for q in got if ctx.identical(q[0], y[c])
                      and ctx.identical(q[1], y[r])]
                ctx.check(len(at) > 0, "observations are drawn at their "
                          "features")
                ctx.check(seen[i] in (None, at[0][2]),
                          "an observation has the same colour in every axis")
                seen[i] = at[0][2]
    if D > 1:
        for a in range(n):
            for b in range(a):
                ctx.check((seen[a] == seen[b]) == (grp[a] == grp[b]),
                          "observations share a colour exactly when they "
                          "share the component")
    of = {seen[i]: grp[i] for i in range(n)}
    for r in range(D):
        for c in range(D):
            drawn = axes[r, c].drawn
            curves = [d for a, d in drawn if a == "plot"]
            fills = [d for a, d in drawn if a == "fill"]
            if r != c:
                ctx.check(not fills, "densities are on the diagonal")
                cs = [colour(option(d, "c", "color")) for d in curves]
                ctx.check(sorted(map(str, cs)) == sorted(map(str, of)),
                          "a contour for each component of an observation")
                for d, col in zip(curves, cs):
                    ctx.check(dashed(d), "contours are dashed")
                    j = of[col]
                    p, q = list(np.ravel(d["x"])), list(np.ravel(d["y"]))
                    ctx.check(len(p) == len(q) > 8, "a closed curve")
                    a, b, e = sig[j][c][c], sig[j][c][r], sig[j][r][r]

                    def far(x, y):
                        """squared distance in the metric of the component"""
                        return (e * x * x - 2 * b * x * y + a * y * y) \
                            / (a * e - b * b)
                    for t in range(0, len(p), 11):
                        ctx.close(far(p[t] - mus[j][c], q[t] - mus[j][r]),
                                  LEVEL, 1e-5, "the contour encloses 95% of "
                                  "its component")
                    ctx.close(far(p[-1] - p[0], q[-1] - q[0]), 0, 1e-5,
                              "the contour is closed")
                    z = len(p) - 1
                    ctx.close(far(ctx.sum(p[:-1]) / z - mus[j][c],
                                  ctx.sum(q[:-1]) / z - mus[j][r]), 0, 1e-5,
                              "the contour goes round the mean")
                continue
            ctx.check(len(curves) == 1, "one curve of the density")
            x = list(np.ravel(curves[0]["x"]))
            f = list(np.ravel(curves[0]["y"]))
            ctx.check(len(x) == len(f), "a density for each position")
            ends = (0, len(x) // 2, len(x) - 1)
            for y in ys if len(x) > 1 else ():
                ctx.le(x[0], y[c], "the axis holds the observations")
                ctx.le(y[c], x[-1], "the axis holds the observations")

            def dens(v, j):
                return w[j] * ctx.normal_pdf([v], [mus[j][c]],
                                             [[sig[j][c][c]]])
            for t in ends:
                ctx.eq(f[t], ctx.sum(dens(x[t], j) for j in range(k)),
                       "the curve is the density of the feature")
            left = [j for j in range(k) if j not in used]
            mine = list(used)
            for d in fills:
                x, f = list(np.ravel(d["x"])), list(np.ravel(d["y1"]))
                col = colour(option(d, "color", "facecolor", "fc"))
                if col in of:
                    j = of[col]
                    ctx.check(j in mine, "one area for each component")
                    mine.remove(j)
                elif col != "black" and D == 1 and mine:
                    j = next((j for j in mine
                              if ctx.identical(f[0], dens(x[0], j))), None)
                    ctx.check(j is not None, "an area is the density of a "
                              "component of an observation")
                    mine.remove(j)
                else:
                    j = next((j for j in left
                              if ctx.identical(f[0], dens(x[0], j))), None)
                    ctx.check(j is not None, "a grey area is the density of "
                              "a component without observations")
                    left.remove(j)
                for t in (0, len(x) // 2, len(x) - 1):
                    ctx.eq(f[t], dens(x[t], j), "an area is the density of "
                           "the component of its colour")
            ctx.check(not mine, "an area for each component of an "
                      "observation")
    after = _mix.state(m.map_sim_params)
    ctx.check(_mix.same_state(ctx, before, after), "the fit is left alone")
    ctx.out("labels", grp)


for D, k, n, fixed, path, frame, tier, *calm in (
        (1, 1, 1, [.9], [[0]], 0, "quick"),
        (2, 1, 1, [.9], [[0]], 1, "quick"),
        (2, 1, 2, [.9], [[0, 0]], 0, "quick"),
        (2, 2, 1, [.5, .4], [[0]], 0, "quick"),
        (1, 2, 2, [.5, .4], [[0, 0]], 1, "quick"),
        (1, 1, 2, [.9], [[0, 0]], 0, "quick"),
        (3, 1, 1, [.9], [[0]], 1, "thorough"),
        (2, 2, 2, [.5, .4], [[0, 0]], 0, "quick", True),
        (2, 2, 2, [.5, .4], [[0, 0]], 0, "thorough"),
        (2, 3, 1, [.4, .3, .2], [[0]], 0, "thorough")):
    grid = 4 - n - (k > 1) if D == 1 else 1
    case("C32", f"{D}-{k}-{n}-{'frame' if frame else 'array'}"
         + ("-calm" if calm else ""),
         f"{n} observations of dimension {D} ("
         f"{'a data frame' if frame else 'an array'}), weights {fixed}, "
         f"grids between symbolic ends of {grid} positions", grid=grid, D=D, k=k, n=n,
         fixed=fixed, path=path, frame=frame, calm=bool(calm), tier=tier, branch_ms=300,
         maxdraws=400, halflogs=False, track=True, logcmp=True,
         budget=240 if tier == "quick" else 800)(plot)
