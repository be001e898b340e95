"""C07: the log-likelihood of a weighting structure is its prior log density"""
from symx.harness import case
from checks import _wm


def ref(ctx, m, name, p, w, binom):
    v = _wm.sticks(w)
    bl = ctx.beta_logpdf
    if name in ("DP", "BiB0"):
        return ctx.sum(bl(x, 1, p.alpha) for x in v)
    if name == "PY":
        return ctx.sum(bl(x, 1 - p.pyd, p.alpha + (j + 1) * p.pyd)
                       for j, x in enumerate(v))
    if name in ("GP", "BiB1"):
        return bl(v[0], p.a, p.b)
    if name == "BiBx":
        c, q = p.x / (1 - p.x), m.p
        return bl(q, p.a, p.b) + ctx.sum(
            bl(x, 1 + c * q, p.alpha + c * (1 - q)) for x in v)
    if name in ("BBern0", "BBern1", "BBernp"):
        s = bl(v[0], 1, p.alpha)
        for j in range(1, len(v)):
            new = not ctx.identical(v[j], v[j - 1])
            if new:
                s = s + bl(v[j], 1, p.alpha)
            if name == "BBernp":
                s = s + ctx.log(p.p if new else 1 - p.p)
        return s
    if name in ("BBin0", "BBinn"):
        s = 0
        lg = ctx.lgamma
        for j, x in enumerate(v):
            b = binom[j]
            s = s + bl(x, 1 + b, p.alpha + p.n - b)
            s = s + lg(p.n + 1) - lg(b + 1) - lg(p.n - b + 1)
            if j == 0:
                s = s + ctx.betaln(1 + b, p.alpha + p.n - b) \
                    - ctx.betaln(1, p.alpha)
            else:
                s = s + b * ctx.log(v[j - 1]) \
                    + (p.n - b) * ctx.log(1 - v[j - 1])
        return s
    if name in ("BiD0", "BiDa"):
        base, cnt = [], []
        for x in v:
            for t, y in enumerate(base):
                if ctx.same(x, y):
                    cnt[t] += 1
                    break
            else:
                base.append(x)
                cnt.append(1)
        s = ctx.sum(bl(x, 1, p.alpha) for x in base)
        s = s + ctx.lgamma(p.a + 1) - ctx.lgamma(p.a + len(v))
        if len(base) > 1:
            s = s + (len(base) - 1) * ctx.log(p.a)
        return s + ctx.sum(ctx.lgamma(c) for c in cnt)
    if name in ("DD", "DDs"):
        s = ctx.lgamma(ctx.sum(p.alpha))
        for a, x in zip(p.alpha, w):
            s = s - ctx.lgamma(a) + (a - 1) * ctx.log(x)
        return s
    return 0


def loglik(ctx, name, k, n=0, size=None, labels=None):
    m, p = _wm.make(ctx, name, k=k)
    if labels:
        m.fit(ctx.intarr(labels))
        m.random(size)
    elif n:
        m.fit(ctx.clabels("d", n, k))
        m.random(size)
    else:
        m.random(k)
    mark = 0
    w = list(m.get_weights())
    if name == "BBinn" or name == "BBin0":
        bs = [e.value for e in ctx.draws("binomial")][mark:]
        bs = [b.value() if hasattr(b, "value") and callable(b.value) else b
              for b in bs]
    else:
        bs = None
    got = m.weighting_log_likelihood()
    ctx.eq(got, ref(ctx, m, name, p, w, bs),
           "log-likelihood of the drawn structure")
    ctx.eq_all(list(m.get_weights()), w, "evaluating changes nothing")
    ctx.out("ll", got)


for nm in _wm.ALL:
    hard = nm in ("BBinn", "BiDa", "BBernp")
    for k in (1, 2, 3, 4):
        case("C07", f"prior-{nm}-{k}", f"prior draw of {k} weights",
             name=nm, k=k, tier="thorough" if k == 4 and hard else "quick")(loglik)
    if not hard:
        case("C07", f"prior-{nm}-5", "prior draw of 5 weights", name=nm,
             k=5)(loglik)
        for wd, (labels, k) in _wm.WIDE.items():
            if k < 8:
                case("C07", f"wide-{nm}-{wd}", f"assignments {labels}",
                     name=nm, k=k, labels=labels)(loglik)
    for n, k, s in ((1, 2, None), (2, 2, 3), (3, 3, None), (3, 2, 1)):
        if nm in ("EQ",) and s:
            continue
        case("C07", f"post-{nm}-{n}-{k}-{s}", f"posterior draw given {n} "
             f"labels below {k}", name=nm, k=k, n=n,
             size=None if nm in _wm.FINITE else s,
             tier="thorough" if n == 3 and k == 3 or (hard and n > 2)
             else "quick")(loglik)
