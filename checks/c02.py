"""C02: completing a weighting structure only appends"""
import numpy as np
from symx.harness import case
from checks import _wm


def step(ctx, m, op, size, tag):
    w0 = list(m.get_weights())
    r = m.complete(size) if op == "complete" else m.tail(size)
    w1 = list(m.get_weights())
    ctx.check(r is not None and len(r) == len(w1), f"{tag} returns the weights")
    ctx.eq_all(list(r), w1, f"{tag} returns the current weights")
    ctx.check(len(w1) >= len(w0), f"{tag} never drops weights")
    ctx.eq_all(w1[:len(w0)], w0, f"{tag} keeps the weights already drawn")
    return w0, w1


def grow(ctx, name, first, sizes, n=0, k=2, labels=None):
    """random(first), then complete to each size"""
    m, p = _wm.make(ctx, name, k=k)
    if labels:
        m.fit(ctx.intarr(labels))
    elif n:
        m.fit(ctx.clabels("d", n, k))
    m.random(first)
    for s in sizes:
        nd = len(ctx.draws())
        w0, w1 = step(ctx, m, "complete", s, "complete")
        if name not in _wm.FINITE:
            ctx.check(len(w1) >= s, "complete reaches the requested size")
            ctx.check(len(w1) == max(len(w0), s),
                      "complete draws only what is missing")
            if len(w0) >= s:
                ctx.check(len(ctx.draws()) == nd,
                          "complete draws nothing when long enough")
        else:
            ctx.check(len(w1) == len(w0), "a finite structure keeps its size")
    ctx.out("w", list(m.get_weights()))


def fresh(ctx, name, size, n=0, k=2):
    """complete on a structure with no weights yet"""
    m, p = _wm.make(ctx, name, k=k)
    if n:
        m.fit(ctx.clabels("d", n, k))
    w0, w1 = step(ctx, m, "complete", size, "complete of an empty structure")
    ctx.check(len(w1) >= (size if name not in _wm.FINITE else 1),
              "complete reaches the requested size")
    ctx.check(m.get_size() == len(w1), "get_size after complete")
    ctx.out("w", w1)


def types(ctx, name):
    m, p = _wm.make(ctx, name, k=2)
    m.random(1)
    for bad in (2.0, "2", [2], np.float64(2)):
        ctx.raises(TypeError, lambda: m.complete(bad),
                   "complete rejects a size that is not an integer")
    w0 = list(m.get_weights())
    m.complete(np.int64(2))
    ctx.check(len(m.get_weights()) >= 2, "complete accepts a numpy integer")
    ctx.eq_all(list(m.get_weights())[:len(w0)], w0, "prefix kept")


for nm in _wm.ALL:
    hard = nm in ("BBinn", "BiDa", "BBernp")
    grows = [(1, (2, 3, 2)), (2, (1, 4)), (1, (1, 5)), (3, (3, 4))]
    for i, (f, ss) in enumerate(grows):
        case("C02", f"prior-{nm}-{i}", f"random({f}) then complete to {ss}",
             name=nm, first=f, sizes=ss,
             tier="thorough" if hard and max(ss) > 3 else "quick")(grow)
    for n, k, f, ss in ((2, 2, 1, (3, 4)), (3, 3, None if nm not in
                        _wm.FINITE else None, (4, 3)), (1, 2, 3, (4,)),
                        (3, 3, 1, (2, 4))):
        case("C02", f"post-{nm}-{n}-{k}-{f}", f"fit to {n} labels below {k},"
             f" random({f}) then complete to {ss}", name=nm, first=f,
             sizes=ss, n=n, k=k,
             tier="thorough" if hard and n > 2 else "quick")(grow)
    if not hard:
        for f, ss in ((1, (9,)), (5, (6, 10)), (8, (3, 9))):
            case("C02", f"wide-{nm}-{f}", f"random({f}) then complete to "
                 f"{ss}", name=nm, first=f, sizes=ss)(grow)
        for wd, (labels, k) in _wm.WIDE.items():
            if k < 9:
                case("C02", f"wide-{nm}-{wd}", f"assignments {labels}, then "
                     f"complete to {k + 1} and {k + 2}", name=nm, first=None,
                     sizes=(k + 1, k + 2), k=k, labels=labels)(grow)
    for s in (1, 2, 3):
        case("C02", f"fresh-{nm}-{s}", f"complete({s}) before any draw",
             name=nm, size=s)(fresh)
        if nm != "FR":
            case("C02", f"freshfit-{nm}-{s}", f"complete({s}) after fitting "
                 "2 labels, before any draw", name=nm, size=s, n=2,
                 k=2)(fresh)
    if nm not in ("EQ", "FR"):
        case("C02", f"types-{nm}", "non-integer sizes", name=nm)(types)
