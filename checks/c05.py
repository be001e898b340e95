"""C05: weights drawn after fitting assignments follow the posterior"""
from symx.harness import case
from checks import _wm


def draw(ctx, m, d, way, size, hist=None):
    """fit and draw; number of draws made before the posterior ones"""
    if hist:
        hist(ctx, m)
    if way in ("refit", "again"):
        m.random(2)
        m.held = [0] + [int(e.value) for e in ctx.draws("choice")[-1:]]
    own = d
    if way == "alias":
        own = d.copy()
    elif way == "list":
        own = [int(x) for x in d]
    m.fit(own)
    mark = len(ctx.draws())
    if way == "alias":
        m.random()
        own[:] = 0
        own[0] = 1
        mark = len(ctx.draws())
        m.random()
    elif way == "list":
        m.random(size)
    elif way == "random":
        m.random(size)
    elif way == "default":
        m.random()
    elif way in ("again", "refit"):
        if way == "again":
            m.random()
        mark = len(ctx.draws())
        m.random(size)
    elif way == "short":
        m.random(1)
        m.complete(size)
    elif way == "complete":
        m.complete(size)
    elif way == "late":
        m.random(6)
        m.complete(size)
    elif way == "grow":
        m.random()
        m.complete(size)
    elif way == "tail":
        m.random()
        m.tail(ctx.real("x_tail", 0, 0.6, lo_open=False))
    return list(m.get_weights()), mark


def posterior(ctx, name, way, n, k, size, p_method="geometric",
              hist=None, labels=None):
    m, p = _wm.make(ctx, name, k=k, p_method=p_method)
    d = ctx.intarr(labels) if labels else ctx.clabels("d", n, k)
    d0 = [int(x) for x in d]
    n = len(d0)
    G = max(d0) + 1
    cnt = [d0.count(j) for j in range(G)]
    aft = [sum(cnt[j + 1:]) for j in range(G)]

    def nj(j):
        return cnt[j] if j < G else 0

    def mj(j):
        return aft[j] if j < G else 0
    w, mark = draw(ctx, m, d, way, size, hist)
    ctx.eq_all(list(d), d0, "the assignments are not modified")
    L = len(w)
    v = _wm.sticks(w)
    ctx.out("w", w)
    if name not in _wm.FINITE and way in ("random", "complete", "short",
                                          "late", "grow"):
        ctx.check(L >= size, "as many weights as requested")
    if name not in _wm.FINITE and way != "tail":
        ctx.check(L >= (size if way == "short" else
                        min(G, size) if size else G), "enough weights")
    if name in ("DP", "BiB0"):
        ctx.distinct([ctx.is_beta(v[j], 1 + nj(j), p.alpha + mj(j),
                                  "posterior stick") for j in range(L)],
                     "sticks are independent draws")
    elif name == "BBern1":
        ctx.distinct([ctx.is_beta(v[j], 1 + nj(j), p.alpha + mj(j),
                                  "posterior stick") for j in range(L)],
                     "sticks are independent draws")
    elif name == "PY":
        ctx.distinct([ctx.is_beta(
            v[j], 1 - p.pyd + nj(j), p.alpha + (j + 1) * p.pyd + mj(j),
            "posterior Pitman-Yor stick") for j in range(L)],
            "sticks are independent draws")
    elif name in ("GP", "BiB1"):
        ctx.is_beta(v[0], p.a + n, p.b + sum(d0), "posterior probability")
        for x in v[1:]:
            ctx.eq(x, v[0], "every stick is the same probability")
    elif name == "BiBx":
        c = p.x / (1 - p.x)
        q = m.p
        if p_method == "geometric":
            ctx.is_beta(q, p.a + n, p.b + sum(d0), "central beta")
        elif p_method == "independent":
            ctx.is_beta(q, p.a, p.b, "central beta")
        elif p_method == "static" and way != "complete":
            if way in ("refit", "again"):
                ctx.is_beta(q, p.a, p.b, "static central beta")
            else:
                ctx.eq(q, p.p, "static central beta")
        ctx.check(q >= 0, "central value in [0, 1]")
        ctx.check(q <= 1, "central value in [0, 1]")
        ctx.distinct([ctx.is_beta(
            v[j], 1 + c * q + nj(j), p.alpha + c * (1 - q) + mj(j),
            "posterior beta-in-beta stick") for j in range(L)],
            "sticks are independent draws")
    elif name in ("BBern0", "BiD0"):
        ctx.is_beta(v[0], 1 + sum(cnt), p.alpha + sum(aft),
                    "posterior of the single base stick")
        for x in v[1:]:
            ctx.eq(x, v[0], "a single base stick")
    elif name == "BBernp":
        indicators(ctx, p, v, mark, G, cnt, aft)
    elif name == "BBin0":
        ctx.distinct([ctx.is_beta(v[j], 1 + nj(j), p.alpha + mj(j),
                                  "posterior stick with n = 0")
                      for j in range(L)], "sticks are independent draws")
    elif name == "BBinn":
        xs = [e.value for e in ctx.draws()[mark:] if e.kind == "binomial"]
        ctx.check(len(xs) >= G + 1, "one binomial on each side of a stick")
        for e in ctx.draws()[mark:]:
            if e.kind == "binomial":
                ctx.eq(e.params["n"], p.n, "binomial size")
        for j in range(min(G, L)):
            b = xs[j] + xs[j + 1]
            ctx.is_beta(v[j], 1 + nj(j) + b, p.alpha + mj(j) + 2 * p.n - b,
                        "stick given its neighbouring binomials")
        for j in range(G, L):
            if j > G:
                e = [e for e in ctx.draws()[mark:] if e.kind == "binomial" and
                     ctx.identical(e.params["p"], v[j - 1])]
                ctx.check(len(e) > 0, "binomial given the previous stick")
                x = e[-1].value
            else:
                x = xs[G]
            ctx.is_beta(v[j], 1 + x, p.alpha + p.n - x,
                        "stick beyond the fitted groups")
    elif name == "BiDa":
        urn(ctx, p, v, mark, G, cnt, aft, getattr(m, "held", []))
    elif name in ("DD", "DDs"):
        e = ctx.law_vec(w)
        ctx.check(e is not None and e.kind == "dirichlet", "a Dirichlet draw")
        if e is not None:
            ctx.eq_all(list(e.alpha), [p.alpha[j] + nj(j) for j in range(k)],
                       "posterior Dirichlet parameter")
    elif name == "EQ":
        for x in w:
            ctx.eq(x * p.n, 1, "equal weights whatever the assignments")
        ctx.check(L == p.n, "n weights")
    else:
        ctx.eq_all(w, [cnt[j] / ctx_one(ctx, n) for j in range(G)],
                   "group frequencies")


def ctx_one(ctx, n):
    from fractions import Fraction
    return Fraction(n) if ctx.sym else n


def indicators(ctx, p, v, mark, G, cnt, aft):
    """beta-Bernoulli: a conditional sweep of the change indicators, then one
    beta variable per block of tied sticks"""
    bern = [e for e in ctx.draws()[mark:] if e.kind == "binomial"]
    for e in bern:
        ctx.eq(e.params["n"], 1, "indicator is Bernoulli")
    ctx.check(len(bern) >= 2 * G - 1, "every indicator is updated")
    b = [0] + [1 if ctx.same(e.value, 1) else 0 for e in bern[1:G]]
    for e in bern[:G]:
        ctx.eq(e.params["p"], p.p, "starting indicator from the prior")
    al = p.alpha
    for j in range(1, G):
        s = max([t for t in range(1, j) if b[t]], default=0)
        f = min([t for t in range(j + 1, G) if b[t]], default=G)

        def blk(x, y):
            return ctx.log(al) + ctx.betaln(1 + sum(cnt[x:y]),
                                            al + sum(aft[x:y]))
        e = bern[G + j - 1]
        q = e.params["p"]
        odds = ctx.exp(blk(s, j) + blk(j, f) - blk(s, f))
        ctx.eq(q * (1 - p.p), (1 - q) * p.p * odds,
               "posterior odds of a change")
        b[j] = 1 if ctx.same(e.value, 1) else 0
    ext = bern[2 * G - 1:]
    cut = [t for t in range(G) if t == 0 or b[t]] + [G]
    laws = []
    for x, y in zip(cut, cut[1:]):
        if x >= len(v):
            break
        laws.append(ctx.is_beta(v[x], 1 + sum(cnt[x:y]), al + sum(aft[x:y]),
                                "posterior of a block"))
        for t in range(x + 1, min(y, len(v))):
            ctx.eq(v[t], v[x], "sticks of a block are tied")
    ctx.check(len(ext) >= len(v) - G, "one indicator per further stick")
    for j in range(G, len(v)):
        e = ext[j - G]
        ctx.eq(e.params["p"], p.p, "indicator beyond the fitted groups")
        if ctx.same(e.value, 1):
            laws.append(ctx.is_beta(v[j], 1, al, "new stick"))
        else:
            ctx.eq(v[j], v[j - 1], "stick repeated without a change")
    ctx.distinct(laws, "blocks are independent draws")


def urn(ctx, p, v, mark, G, cnt, aft, held):
    """beta-in-Dirichlet: base sticks given the clusters of the sticks held
    before (a single one at first), then a sweep of cluster assignments"""
    ds = list(ctx.draws()[mark:])

    def take(kind):
        ctx.check(len(ds) > 0 and ds[0].kind == kind, f"next draw is a {kind}")
        return ds.pop(0)
    al = p.alpha
    c = (held + [0] * G)[:G]
    base = []
    for t in range(max(c) + 1):
        e = take("beta")
        ctx.eq(e.params["a"], 1 + sum(x for x, i in zip(cnt, c) if i == t),
               "base stick: first parameter")
        ctx.eq(e.params["b"], al + sum(x for x, i in zip(aft, c) if i == t),
               "base stick: second parameter")
        base.append(e.value)
    for j in range(G):
        red = [c[t] for t in range(G) if t != j]
        top = max(red, default=-1)
        lp, new = [], None
        for t in range(top + 2):
            r = red.count(t)
            if r:
                lp.append(ctx.log(r) + cnt[j] * ctx.log(base[t])
                          + aft[j] * ctx.log(1 - base[t]))
            elif new is None:
                new = t
                lp.append(ctx.log(p.a) + ctx.log(al)
                          + ctx.betaln(1 + cnt[j], al + aft[j]))
            else:
                lp.append(None)
        us = [take("uniform").value for _ in range(
            len(lp) if lp[-1] is not None else len(lp) - 1)]
        sc = [None if x is None else x - ctx.log(-ctx.log(u))
              for x, u in zip(lp, us)]
        best = None
        for t, x in enumerate(sc):
            if x is not None and (best is None or bool(x > sc[best])):
                best = t
        c[j] = best
        if best == new:
            e = take("beta")
            ctx.eq(e.params["a"], 1 + cnt[j], "new base: first parameter")
            ctx.eq(e.params["b"], al + aft[j], "new base: second parameter")
            if best == len(base):
                base.append(e.value)
            else:
                base[best] = e.value
    for j in range(min(G, len(v))):
        ctx.eq(v[j], base[c[j]], "stick is its cluster's base")


def incompatible(ctx, n, k, extra):
    m, p = _wm.make(ctx, "DD", k=k)
    d = ctx.clabels("d", n, k + extra)
    m.fit(d)
    if max(int(x) for x in d) >= k:
        ctx.raises(ValueError, lambda: m.random(),
                   "a Dirichlet distribution rejects labels beyond n")
    else:
        ctx.no_raise(lambda: m.random(), "labels below n are accepted")


for nm in _wm.ALL:
    hard = nm in ("BBinn", "BBernp")
    cfgs = []
    for n, k in ((1, 1), (1, 3), (2, 2), (3, 2), (3, 3), (4, 3), (5, 3)):
        for way, size in (("default", None), ("random", k + 1),
                          ("random", 1), ("short", k + 1),
                          ("complete", k + 1), ("complete", 1),
                          ("grow", k + 2), ("again", None),
                          ("refit", None), ("tail", None)):
            cfgs.append((n, k, way, size))
    for n, k, way, size in cfgs:
        if nm in _wm.FINITE and (way not in ("default", "again", "refit",
                                             "complete")):
            continue
        if nm == "FR" and way == "complete" and size == 1 and n == 1:
            continue
        if nm == "BiDa" and (k > 2 or way in ("again", "tail") or n > 3):
            if (n, k, way) != (3, 3, "default"):
                continue
        if way == "tail" and nm in ("BiB1", "BBinn", "BBernp", "BiD0", "BBern0"):
            continue
        t = "quick"
        if n >= 4 or (hard and (n > 2 or k > 2)) or (
                n == 3 and k == 3 and way in ("grow", "tail", "again")):
            t = "thorough"
        if n == 5 and (way not in ("default", "short", "complete") or hard):
            continue
        if nm == "BiDa" and (k == 3 or (way == "refit" and n == 3)):
            t = "thorough"
        md = None
        if way == "tail":
            md = 6 if nm not in ("BBern1", "BBin0") else 12
        case("C05", f"{nm}-{way}{size or ''}-{n}-{k}", f"{n} assignments to "
             f"groups below {k}; weights by {way}", name=nm, way=way, n=n,
             k=k, size=size, tier=t, maxdraws=md)(posterior)
    if nm == "BiBx":
        for pm in ("independent", "static", "max-likelihood",
                   "inverse-sampling"):
            for way, size in (("default", None), ("random", 3), ("refit",
                              None), ("short", 3)):
                case("C05", f"{nm}-{pm}-{way}", f"2 assignments, p_method "
                     f"{pm}; optimisers and roots arbitrary in [0, 1]",
                     name=nm, way=way, n=2, k=2, size=size,
                     p_method=pm)(posterior)
for nm in _wm.ALL:
    if nm in ("BBernp", "BBinn", "BiDa"):
        if nm == "BBernp":
            for g in (4, 5):
                case("C05", f"ladder-{nm}-{g}", f"assignments 0..{g - 1}",
                     name=nm, way="default", n=0, k=g, size=None,
                     labels=list(range(g)) + [1],
                     tier="quick" if g == 4 else "thorough")(posterior)
        continue
    for wd, (labels, k) in _wm.WIDE.items():
        for way, size in (("default", None), ("random", k + 2),
                          ("random", 3), ("short", k + 1),
                          ("complete", k + 2), ("grow", k + 3),
                          ("again", None), ("refit", None),
                          ("late", k + 1)):
            if way == "late" and k < 8:
                continue
            if nm in _wm.FINITE and way not in ("default", "again", "refit",
                                                "complete"):
                continue
            if nm == "FR" and way == "complete":
                continue
            case("C05", f"wide-{nm}-{way}{size or ''}-{wd}",
                 f"assignments {labels}; weights by {way}", name=nm, way=way,
                 n=0, k=k, size=size, labels=labels)(posterior)
for n, k, x in ((1, 1, 1), (2, 2, 1), (2, 1, 2), (3, 2, 2)):
    case("C05", f"beyond-{n}-{k}-{x}", f"{n} labels below {k + x}, n = {k}",
         n=n, k=k, extra=x)(incompatible)
