"""C17: Gibbs sampler: which states are saved and what is reported on them"""
from symx.harness import case
from checks import _mix


def saved(ctx, n, D, k, total, burn, sub, how, warm=0, grow=0, path=None,
          fixed=None):
    kw, pr = _mix.priors(ctx, D)
    ys = _mix.data(ctx, n, D)
    wm = _mix.stub(ctx, k, grow=grow, path=path, fixed=fixed,
                   flat=bool(path))
    m = _mix.mixture(ctx, wm, total_iter=total, burn_in=burn,
                     subsample_steps=sub, **kw)
    m.fit_gibbs(ctx.arr(ys), init_groups=k, init_method=how,
                show_progress=False)
    first = [_mix.state(s) for s in m.get_sim_params()]
    for _ in range(warm):
        m.fit_gibbs(ctx.arr(ys), warm_start=True, show_progress=False)
    raw = m.get_sim_params()
    got = [_mix.state(s) for s in raw]
    each = -(-(total - burn) // sub)
    ctx.check(len(got) == each * (1 + warm), "number of saved states")
    # the same chain with every state saved
    if not warm:
        w2 = _mix.stub(ctx, k, grow=grow, twin=wm, path=path,
                        fixed=fixed, flat=bool(path))
        m2 = _mix.mixture(ctx, w2, total_iter=total, burn_in=0, **kw)
        m2.fit_gibbs(ctx.arr(ys), init_groups=k, init_method=how,
                     show_progress=False)
        full = [_mix.state(s) for s in m2.get_sim_params()]
        for t in range(1, total):
            w3 = _mix.stub(ctx, k, grow=grow, twin=wm, path=path,
                            fixed=fixed, flat=bool(path))
            m3 = _mix.mixture(ctx, w3, total_iter=t, burn_in=0, **kw)
            m3.fit_gibbs(ctx.arr(ys), init_groups=k, init_method=how,
                         show_progress=False)
            ctx.check(_mix.same_state(
                ctx, _mix.state(m3.get_sim_params()[-1]), full[t - 1]),
                "a saved state is not changed by later iterations")
        full = full[burn::sub]
        ctx.check(len(full) == len(got) and all(
            _mix.same_state(ctx, a, b) for a, b in zip(got, full)),
            "the states saved are those after the burn-in, one every "
            "subsample_steps")
    else:
        ctx.check(all(_mix.same_state(ctx, a, b)
                      for a, b in zip(first, got)),
                  "states of the past run are kept")
    for s in got:
        ctx.check(len(s.d) == n and len(s.u) == n,
                  "one group and slice variable per observation")
        ctx.check(set(range(len(s.w))) <= set(s.theta.keys()),
                  "an atom for every weight")
        ctx.check(set(s.d) <= set(range(len(s.w))),
                  "groups are indices of weights")
    g = list(m.get_n_groups())
    ctx.check([int(x) for x in g] == [len(set(s.d)) for s in got],
              "number of occupied groups of every saved state")
    ctx.check(len(m.get_n_theta()) == len(got),
              "a number of atoms for every saved state")
    aff = m.gibbs_eap_affinity_matrix()
    for a in range(n):
        for b in range(n):
            ctx.eq(aff[a][b], ctx.sum(int(s.d[a] == s.d[b])
                                      for s in got) / len(got),
                   "affinity is the proportion of saved states sharing a "
                   "group")
    if sub == 1 and not warm:
        fits = wm.fits[burn + 1:]
        for s, f in zip(got, fits):
            ctx.check([int(x) for x in f] == s.d,
                      "a saved state holds its own groups")


for n, D, k, total, burn, sub, how, warm, grow, tier in (
        (1, 1, 1, 1, 0, 1, "kmeans", 0, 0, "quick"),
        (1, 1, 1, 3, 0, 2, "kmeans", 0, 0, "quick"),
        (1, 1, 1, 4, 0, 3, "kmeans", 0, 0, "quick"),
        (1, 1, 1, 4, 1, 2, "kmeans", 0, 0, "quick"),
        (1, 1, 1, 5, 2, 1, "kmeans", 0, 0, "quick"),
        (1, 1, 1, 4, 2, 2, "kmeans", 0, 0, "quick"),
        (1, 1, 1, 3, 0, 4, "kmeans", 0, 0, "quick"),
        (1, 1, 2, 2, 0, 1, "random", 0, 0, "quick"),
        (2, 1, 2, 1, 0, 1, "kmeans", 0, 0, "quick"),
        (2, 1, 1, 2, 0, 1, "kmeans", 0, 0, "quick"),
        (1, 1, 1, 2, 1, 1, "kmeans", 0, 1, "quick"),
        (1, 1, 1, 2, 1, 1, "kmeans", 1, 0, "quick"),
        (1, 1, 1, 3, 0, 2, "kmeans", 1, 0, "quick"),
        (1, 1, 2, 1, 0, 1, "random", 1, 0, "quick"),
        (3, 1, 2, 1, 0, 1, "kmeans", 0, 0, "thorough"),
        (2, 1, 2, 2, 0, 1, "kmeans", 0, 0, "thorough"),
        (2, 1, 2, 1, 0, 1, "kmeans", 1, 0, "thorough"),
        (1, 1, 2, 3, 1, 1, "random", 0, 0, "thorough")):
    case("C17", f"{n}-{D}-{k}-{total}-{burn}-{sub}-{how}-{warm}-{grow}",
         f"{n} observations of dimension {D}, {k} weights and {grow} more "
         f"from the tail, {total} iterations ({burn} burn-in), a state saved "
         f"every {sub}, {how} start, {warm} warm restarts", n=n, D=D, k=k,
         total=total, burn=burn, sub=sub, how=how, warm=warm, grow=grow,
         tier=tier, branch_ms=500, maxdraws=400, budget=600 if tier == "thorough" else 120
         )(saved)


for name, D, fixed, path, sub, burn, tier in (
        ("three", 1, [.3, .3, .3], [[0, 1, 2]], 1, 0, "quick"),
        ("later", 1, [.3, .3, .3], [[0, 1, 2], [2, 1, 2]], 1, 0, "quick"),
        ("burn", 1, [.3, .3, .3], [[0, 1, 0], [2, 0, 2]], 1, 1, "quick"),
        ("four", 1, [.2] * 4, [[0, 1, 2, 3]], 1, 0, "quick"),
        ("long", 1, [.3] * 2, [[0, 1], [1, 1], [1, 0], [0, 0]], 2, 1,
         "quick"),
        ("longer", 1, [.3] * 3, [[0, 1, 2], [1, 1, 0], [2, 2, 0], [0, 1, 2]],
         3, 0, "thorough"),
        ("plane", 2, [.3] * 3, [[0, 1, 2], [2, 1, 2]], 1, 0, "thorough")):
    n, k = len(path[0]), len(fixed)
    case("C17", f"path-{name}", f"{n} observations of dimension {D}, weights "
         f"{fixed}, groups {path} at the {len(path)} iterations ({burn} "
         f"burn-in), a state saved every {sub}, slices in increasing parts "
         "of their range, one state of positive likelihood, everything else "
         "symbolic", n=n, D=D, k=k, total=len(path), burn=burn, sub=sub,
         how="kmeans", path=path, fixed=fixed, tier=tier, branch_ms=500,
         maxdraws=400, budget=800 if tier == "thorough" else 300)(saved)
