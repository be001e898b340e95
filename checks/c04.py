"""C04: weights drawn without data follow the prior of the structure"""
from symx.harness import case
from checks import _wm


def draw(ctx, m, way, k, hist=None):
    """prior draw of (at least) k weights, several ways; and the number of
    draws made before the state was drawn afresh"""
    mark = 0
    if hist:
        hist(ctx, m)
        m.reset()
        mark = len(ctx.draws())
    if way == "random":
        m.random(k)
    elif way == "complete":
        m.complete(k)
    elif way == "grow":
        m.random(1)
        m.complete(k)
    elif way == "steps":
        m.random(1)
        for j in range(2, k + 1):
            m.complete(j)
    elif way == "two":
        m.random(k)
        m.complete(k + 1)
        mark = len(ctx.draws())
        m.random(k)
    elif way == "refresh":
        m.random(k)
        m.reset()
        mark = len(ctx.draws())
        m.random(1)
        m.complete(k)
    return list(m.get_weights()), mark



def prior(ctx, name, way, k, hist=None):
    m, p = _wm.make(ctx, name, k=k)
    w, mark = draw(ctx, m, way, k, hist)
    n0 = len(w)
    if name not in _wm.FINITE:
        ctx.check(n0 >= k, "enough weights")
    v = _wm.sticks(w)
    ctx.out("w", w)
    if name in ("DP", "BiB0"):
        ds = [ctx.is_beta(v[j], 1, p.alpha, f"stick of {name}")
              for j in range(n0)]
        ctx.distinct(ds, "sticks are independent draws")
    elif name == "PY":
        ds = [ctx.is_beta(v[j], 1 - p.pyd, p.alpha + (j + 1) * p.pyd,
                          "Pitman-Yor stick") for j in range(n0)]
        ctx.distinct(ds, "sticks are independent draws")
    elif name in ("GP", "BiB1"):
        ctx.is_beta(v[0], p.a, p.b, "geometric success probability")
        for x in v[1:]:
            ctx.eq(x, v[0], "every stick is the same probability")
    elif name == "BiBx":
        c = p.x / (1 - p.x)
        q = m.p
        ctx.is_beta(q, p.a, p.b, "central beta")
        ds = [ctx.is_beta(x, 1 + c * q, p.alpha + c * (1 - q),
                          "beta-in-beta stick") for x in v]
        ctx.distinct(ds, "sticks are independent draws")
    elif name == "BBern0":
        ctx.is_beta(v[0], 1, p.alpha, "first stick")
        for x in v[1:]:
            ctx.eq(x, v[0], "no change when p = 0")
    elif name == "BBern1":
        ds = [ctx.is_beta(x, 1, p.alpha, "stick") for x in v]
        ctx.distinct(ds, "a new stick at every position when p = 1")
    elif name == "BBernp":
        ind = ctx.draws("binomial")[-(n0 - 1):] if n0 > 1 else []
        ctx.check(len(ind) == n0 - 1, "one indicator per further stick")
        ds = [ctx.is_beta(v[0], 1, p.alpha, "first stick")]
        for j in range(1, n0):
            d = ind[j - 1]
            ctx.eq(d.params["n"], 1, "indicator is Bernoulli")
            ctx.eq(d.params["p"], p.p, "indicator probability")
            if ctx.same(d.value, 1):
                ds.append(ctx.is_beta(v[j], 1, p.alpha, "new stick"))
            else:
                ctx.eq(v[j], v[j - 1], "stick repeated without a change")
        ctx.distinct(ds, "new sticks are independent draws")
    elif name == "BBin0":
        ds = [ctx.is_beta(x, 1, p.alpha, "stick with n = 0") for x in v]
        ctx.distinct(ds, "sticks are independent draws")
    elif name == "BBinn":
        prev = None
        for j in range(n0):
            d = ctx.law(v[j])
            ctx.check(d is not None and d.kind == "beta", "stick is Beta")
            if prev is None:
                if ctx.same(d.a + d.b, 1 + p.alpha):
                    ctx.eq(d.a, 1, "first stick: first parameter")
                    prev = v[j]
                    continue
            bs = [b for b in ctx.draws()[mark:] if b.kind == "binomial" and
                  (prev is None or ctx.identical(b.params["p"], prev))]
            ctx.check(len(bs) > 0, "a binomial given the previous stick")
            b = bs[0] if prev is None else bs[-1]
            ctx.eq(b.params["n"], p.n, "binomial size")
            if prev is None:
                ctx.is_beta(b.params["p"], 1, p.alpha, "hidden first stick")
            ctx.eq(d.a, 1 + b.value, "stick: first parameter")
            ctx.eq(d.b, p.alpha + p.n - b.value, "stick: second parameter")
            prev = v[j]
    elif name == "BiD0":
        ctx.is_beta(v[0], 1, p.alpha, "base stick")
        for x in v[1:]:
            ctx.eq(x, v[0], "one base stick when a = 0")
    elif name == "BiDa":
        ch = ctx.draws("choice")[-(n0 - 1):] if n0 > 1 else []
        ctx.check(len(ch) == n0 - 1, "one urn draw per further stick")
        base = [v[0]]
        ds = [ctx.is_beta(v[0], 1, p.alpha, "base stick")]
        cnt = [1]
        for j in range(1, n0):
            q = ch[j - 1].params["p"]
            ctx.check(len(q) == len(base) + 1, "urn categories")
            for t in range(len(base)):
                ctx.eq(q[t] * (j + p.a), cnt[t], "urn probability of an "
                       "existing base stick")
            ctx.eq(q[len(base)] * (j + p.a), p.a, "urn probability of a new "
                   "base stick")
            hit = None
            for t in range(len(base)):
                if ctx.same(ch[j - 1].value, t):
                    hit = t
            if hit is None:
                base.append(v[j])
                cnt.append(1)
                ds.append(ctx.is_beta(v[j], 1, p.alpha, "new base stick"))
            else:
                cnt[hit] += 1
                ctx.eq(v[j], base[hit], "stick reused by the urn")
        ctx.distinct(ds, "base sticks are independent draws")
    elif name in ("DD", "DDs"):
        d = ctx.law_vec(w)
        ctx.check(d is not None and d.kind == "dirichlet",
                  "a Dirichlet draw")
        if d is not None:
            ctx.eq_all(list(d.alpha), p.alpha, "Dirichlet parameter")
    else:
        ctx.check(n0 == p.n, "n weights")
        for x in w:
            ctx.eq(x * p.n, 1, "equal prior weights")


for nm in _wm.ALL:
    hard = nm in ("BBinn", "BiDa", "BBernp")
    for way in ("random", "complete", "grow", "two", "refresh", "steps"):
        if nm == "FR" and way == "complete":
            continue
        for k in (1, 2, 3, 5, 8):
            if k == 8 and hard:
                continue
            if (k == 1 and way in ("grow", "refresh")) or (
                    way == "steps" and k != 5):
                continue
            case("C04", f"{nm}-{way}-{k}", f"{k} weights, drawn by {way}",
                 name=nm, way=way, k=k,
                 tier="thorough" if (k == 5 and hard and way not in (
                     "steps", "grow")) or (hard and k == 3 and
                                               way in ("two", "refresh"))
                 else "quick")(prior)
