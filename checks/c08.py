"""C08: log-likelihood of an assignment given the weights"""
from symx.harness import case
from checks import _wm


def given(ctx, name, k, n, reach, form):
    """d passed explicitly; labels may go beyond the current weights"""
    m, p = _wm.make(ctx, name, k=k)
    m.random(k)
    w0 = list(m.get_weights())
    fin = name in _wm.FINITE
    d = ctx.clabels("d", n, k if fin else k + reach)
    ds = [int(x) for x in d]
    got = m.assignation_log_likelihood(ds if form == "list" else d)
    w1 = list(m.get_weights())
    ctx.eq_all(w1[:len(w0)], w0, "weights already drawn are kept")
    want = 0
    for x in ds:
        ctx.check(x < len(w1), "weights cover every label")
        want = want + ctx.log(w1[x])
    ctx.eq(got, want, "sum of the log weights of the labels")
    ctx.out("ll", got)


def fitted(ctx, name, k, n, labels=None):
    """d is the fitted assignment"""
    m, p = _wm.make(ctx, name, k=k)
    d = ctx.intarr(labels) if labels else ctx.clabels("d", n, k)
    m.fit(d)
    m.random()
    got = m.assignation_log_likelihood()
    w1 = list(m.get_weights())
    ctx.eq(got, ctx.sum(ctx.log(w1[int(x)]) for x in d),
           "sum of the log weights of the fitted labels")
    ctx.eq(m.assignation_log_likelihood(d), got,
           "same as passing the fitted labels")
    e = ctx.clabels("e", 1 if labels else 2,
                    max(int(x) for x in d) + 1)
    ctx.eq(m.assignation_log_likelihood(e),
           ctx.sum(ctx.log(w1[int(x)]) for x in e),
           "labels passed take precedence over the fitted ones")
    ctx.out("ll", got)


def zero(ctx, n):
    """a label of an empty group of a frequency structure"""
    m, p = _wm.make(ctx, "FR", k=2)
    m.fit(ctx.intarr([1] * n))
    m.random()
    ctx.check(m.assignation_log_likelihood(ctx.intarr([0, 1]))
              == -float("inf"), "zero weight gives minus infinity")


for nm in _wm.ALL:
    hard = nm in ("BBinn", "BiDa", "BBernp")
    for k, n, reach, form in ((1, 2, 0, "list"), (2, 2, 1, "arr"),
                              (2, 2, 1, "list"), (3, 2, 0, "arr"),
                              (2, 3, 0, "arr"), (2, 3, 2, "list")):
        case("C08", f"given-{nm}-{k}-{n}-{reach}-{form}", f"{n} labels below "
             f"{k + reach} on {k} weights", name=nm, k=k, n=n, reach=reach,
             form=form, tier="thorough" if hard and n > 2 else "quick"
             )(given)
    for wd, (labels, k) in _wm.WIDE.items():
        if not hard and k < 8:
            case("C08", f"wide-{nm}-{wd}", f"assignments {labels}", name=nm,
                 k=k, n=0, labels=labels)(fitted)
    for k, n in ((2, 2), (3, 2), (3, 3)):
        case("C08", f"fitted-{nm}-{k}-{n}", f"{n} fitted labels below {k}",
             name=nm, k=k, n=n, tier="thorough" if n + k > 4 and hard
             else "quick")(fitted)
case("C08", "zero", "frequency structure with an empty group", n=2)(zero)
