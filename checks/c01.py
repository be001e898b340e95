"""C01: every state of a weighting structure is a (sub)probability vector"""
from symx.harness import case
from checks import _wm


def valid(ctx, m, name, k):
    w = list(m.get_weights())
    s = ctx.sum(w)
    for x in w:
        ctx.check(x >= 0, "weights are non-negative")
    if name in ("EQ", "FR"):
        ctx.close(s, 1, 1e-9, "finite structures sum to one")
    elif name in _wm.FINITE:
        ctx.eq(s, 1, "finite structures sum to one")
    else:
        ctx.le(s, 1, "weights sum to at most one")
    ctx.eq(m.get_size(), len(w), "get_size is the number of weights")
    nz = list(m.get_normalized_weights())
    cm = list(m.get_normalized_cumulative_weights())
    ctx.eq(len(nz), len(w), "normalized weights: length")
    ctx.eq(len(cm), len(w), "cumulative weights: length")
    run = 0
    for x, y, z in zip(w, nz, cm):
        ctx.eq(y * s, x, "normalized weights are proportional to the weights")
        run = run + y
        ctx.eq(z, run, "cumulative weights are the partial sums")
    if name in ("EQ", "FR"):
        ctx.close(cm[-1], 1, 1e-9, "cumulative weights end at one")
    else:
        ctx.eq(cm[-1], 1, "cumulative weights end at one")
    ctx.out("w", w)


def prior(ctx, name, size):
    m, p = _wm.make(ctx, name, k=size)
    m.random(size)
    valid(ctx, m, name, size)
    m.complete(size + 1)
    valid(ctx, m, name, size)


def posterior(ctx, name, n, k, size, labels=None):
    m, p = _wm.make(ctx, name, k=k)
    d = ctx.intarr(labels) if labels else ctx.clabels("d", n, k)
    m.fit(d)
    m.random(size)
    valid(ctx, m, name, k)
    m.complete(k + 1)
    valid(ctx, m, name, k)


def tail(ctx, name, k):
    m, p = _wm.make(ctx, name, k=k)
    x = ctx.real("x_tail", 0, 0.9, lo_open=False)
    m.tail(x)
    valid(ctx, m, name, k)


for nm in _wm.ALL:
    hard = nm in ("BBinn", "BiDa", "BBernp")
    for sz in (1, 2, 3, 4):
        case("C01", f"prior-{nm}-{sz}", f"{sz} then {sz + 1} weights; all "
             "parameters and draws", name=nm, size=sz,
             tier="thorough" if hard and sz > 2 else "quick")(prior)
    for n, k, sz in ((1, 2, None), (2, 2, None), (2, 2, 1), (3, 3, None),
                     (3, 3, 2), (4, 3, None), (4, 4, 2)):
        if sz and nm in _wm.FINITE:
            continue
        case("C01", f"post-{nm}-{n}-{k}-{sz}", f"{n} assignments to {k} "
             f"groups, first draw of size {sz}, then {k + 1} weights",
             name=nm, n=n, k=k, size=sz,
             tier="thorough" if n == 4 or (hard and n > 2) else "quick"
             )(posterior)
    if not hard:
        case("C01", f"prior-{nm}-7", "7 then 8 weights", name=nm,
             size=7)(prior)
        for wd, (labels, k) in _wm.WIDE.items():
            if k < 8:
                case("C01", f"wide-{nm}-{wd}", f"assignments {labels}",
                     name=nm, n=0, k=k, size=None, labels=labels)(posterior)
    if nm in ("DP", "PY", "GP", "BiB0", "BiBx", "DD", "EQ"):
        for md, t in ((4, "quick"), (6, "thorough")):
            case("C01", f"tail-{nm}-{md}", "tail of a fresh structure, "
                 f"threshold in [0, 0.9]; runs needing more than {md - 1} "
                 "draws are cut", name=nm, k=2, maxdraws=md, tier=t)(tail)
