"""Weighting structures under check: construction with symbolic parameters and
reference laws written from the models' definitions."""

STICKS = ["DP", "PY", "GP", "BiB0", "BiBx", "BiB1", "BBern0", "BBernp",
          "BBern1", "BBin0", "BBinn", "BiD0", "BiDa"]
FINITE = ["DD", "DDs", "EQ", "FR"]
ALL = STICKS + FINITE


# fixed assignments larger than the arbitrary ones: labels, groups
WIDE = {"gap": ([0, 5], 6), "far": ([7], 8), "same": ([3] * 9, 4),
        "runs": ([0, 0, 0, 1, 1, 1, 1, 4, 4], 6),
        "mixed": ([5, 2, 7, 2, 0], 8),
        "long": ([1, 0, 2, 2, 0, 1, 3, 0, 1, 2, 0, 0, 4, 1], 5)}


class P:
    def __init__(self, **k):
        self.__dict__.update(k)


def make(ctx, name, k=2, rng=None, p_method="geometric"):
    """-> (weighting structure, its parameters)"""
    wm = ctx.load("pyrichlet.weight_models")
    r = rng if rng is not None else ctx.rng()
    if name == "DP":
        p = P(alpha=ctx.pos("alpha"))
        return wm.DirichletProcess(alpha=p.alpha, rng=r), p
    if name == "PY":
        d = ctx.real("pyd", 0, 1, lo_open=False)
        a = ctx.real("alpha")
        ctx.assume(a > -d)
        return wm.PitmanYorProcess(pyd=d, alpha=a, rng=r), P(pyd=d, alpha=a)
    if name == "GP":
        p = P(a=ctx.pos("a"), b=ctx.pos("b"))
        return wm.GeometricProcess(a=p.a, b=p.b, rng=r), p
    if name.startswith("BiB"):
        x = {"0": 0, "1": 1}.get(name[3])
        if x is None:
            x = ctx.real("x", 0, 1)
        p = P(x=x, a=ctx.pos("a"), b=ctx.pos("b"), alpha=ctx.pos("alpha"),
              p=ctx.real("p", 0, 1))
        return wm.BetaInBeta(x=x, alpha=p.alpha, a=p.a, b=p.b, p=p.p,
                             p_method=p_method, rng=r), p
    if name.startswith("BBern"):
        q = {"0": 0, "1": 1}.get(name[5])
        if q is None:
            q = ctx.real("p", 0, 1)
        p = P(p=q, alpha=ctx.pos("alpha"))
        return wm.BetaBernoulli(p=q, alpha=p.alpha, rng=r), p
    if name.startswith("BBin"):
        p = P(n=0 if name == "BBin0" else 2, alpha=ctx.pos("alpha"))
        return wm.BetaBinomial(n=p.n, alpha=p.alpha, rng=r), p
    if name.startswith("BiD"):
        p = P(a=0 if name == "BiD0" else ctx.pos("a"), alpha=ctx.pos("alpha"))
        return wm.BetaInDirichlet(alpha=p.alpha, a=p.a, rng=r), p
    if name == "DD":
        al = [ctx.pos(f"alpha{j}") for j in range(k)]
        return wm.DirichletDistribution(n=k, alpha=ctx.arr(al), rng=r), \
            P(n=k, alpha=al)
    if name == "DDs":
        al = ctx.choose("alphas", [1, 0.5, 3])
        return wm.DirichletDistribution(n=k, alpha=al, rng=r), \
            P(n=k, alpha=[al] * k)
    if name == "EQ":
        return wm.EqualWeighting(n=k, rng=r), P(n=k)
    if name == "FR":
        return wm.FrequencyWeighting(n=k, rng=r), P(n=k)
    raise KeyError(name)


def sticks(w):
    """stick-breaking fractions of a weight vector"""
    out, rest = [], 1
    for x in w:
        out.append(x / rest)
        rest = rest - x
    return out


def after(ctx, d, j, k):
    """number of assignments beyond group j (labels below k)"""
    return ctx.sum(ctx.count(d, t) for t in range(j + 1, k))


def stick_weights(ctx, v):
    out, rest = [], 1
    for x in v:
        out.append(rest * x)
        rest = rest * (1 - x)
    return out
