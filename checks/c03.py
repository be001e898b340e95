"""C03: tail(x) extends until the weights reach x"""
from symx.harness import case
from checks import _wm


def tail(ctx, name, start, n=0, k=2, labels=None):
    m, p = _wm.make(ctx, name, k=k)
    if labels:
        m.fit(ctx.intarr(labels))
        m.random()
    elif n:
        m.fit(ctx.clabels("d", n, k))
        m.random()
    elif start:
        m.random(start)
    w0 = list(m.get_weights())
    x = ctx.real("x_tail", 0, 1, lo_open=False)
    reached = None
    if w0:
        reached = ctx.sum(w0)
    nd = len(ctx.draws())
    r = m.tail(x)
    w1 = list(m.get_weights())
    ctx.eq_all(list(r), w1, "tail returns the weights")
    ctx.check(len(w1) >= 1, "tail leaves at least one weight")
    ctx.le(x, ctx.sum(w1), "the weights reach the requested mass")
    ctx.eq_all(w1[:len(w0)], w0, "tail keeps the weights already drawn")
    if len(w1) > max(1, len(w0)) and name not in _wm.FINITE:
        ctx.le(ctx.sum(w1[:-1]), x, "tail stops once x is reached")
    if len(w1) == len(w0):
        ctx.check(len(ctx.draws()) == nd, "no draw when already reached")
    elif w0:
        ctx.le(reached, x, "tail adds weights only when needed")
    ctx.out("w", w1)


def bad(ctx, name):
    m, p = _wm.make(ctx, name, k=2)
    m.random(1)
    w0 = list(m.get_weights())
    lo = ctx.real("neg", None, 0)
    hi = ctx.real("big", 1, None, lo_open=False)
    ctx.raises(ValueError, lambda: m.tail(lo), "tail rejects a negative mass")
    ctx.raises(ValueError, lambda: m.tail(hi), "tail rejects a mass >= 1")
    ctx.raises(ValueError, lambda: m.tail(1), "tail rejects one")
    ctx.eq_all(list(m.get_weights()), w0, "rejected calls change nothing")


for nm in _wm.ALL:
    hard = nm in ("BBinn", "BiDa", "BBernp")
    fin = nm in _wm.FINITE
    for st in (0, 1, 2):
        for md, t in ((4, "quick"), (6, "thorough")):
            if fin and md == 6:
                continue
            md2 = md + (4 if nm in ("BBernp", "BBinn") else 2 * (
                nm in ("BBern1", "BBin0")))
            if hard and t == "thorough":
                md2 += 2
            case("C03", f"prior-{nm}-{st}-{md}", f"after {st} weights, any "
                 f"x in [0,1); runs with more than {md2} draws are cut",
                 name=nm, start=st, maxdraws=md2, tier=t,
                 maxbranch=6 + 4 * (t != "quick") if nm == "BiB1" else None
                 )(tail)
    for n, k in ((2, 2), (3, 3)):
        md2 = 2 + k + (12 if nm in ("BBernp", "BBinn", "BiDa") else 4 * (
            nm in ("BBern1", "BBin0")))
        case("C03", f"post-{nm}-{n}-{k}", f"after fitting {n} labels below "
             f"{k} and drawing; runs with more than {md2} draws are cut",
             name=nm, start=0, n=n, k=k, maxdraws=md2,
             maxbranch=12 if nm == "BiB1" else None,
             tier="thorough" if hard or n == 3 else "quick")(tail)
    if not hard and not fin:
        for st in (5, 8):
            case("C03", f"wide-{nm}-{st}", f"after {st} weights; at most 2 "
                 "more", name=nm, start=st, maxbranch=5 if nm == "BiB1" else
                 None, maxdraws=st + 3 + (st + 4) * (
                     nm in ("BBern1", "BBin0", "BBern0")))(tail)
        for wd, (labels, k) in _wm.WIDE.items():
            if k < 9:
                case("C03", f"wide-{nm}-{wd}", f"assignments {labels}; at "
                     "most 2 more weights", name=nm, start=0, k=k,
                     labels=labels, maxbranch=5 if nm == "BiB1" else None,
                     maxdraws=k + 3 + (2 * k + 4) * (
                         nm in ("BBern1", "BBin0", "BBern0"))
                     )(tail)
    case("C03", f"bad-{nm}", "x < 0 and x >= 1", name=nm)(bad)
