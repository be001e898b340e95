"""C06: a refit or a reset forgets every earlier fit"""
from symx.harness import case
from checks import _wm, c04, c05


def h_small(ctx, m):
    m.fit(ctx.intarr([0]))
    m.random()


def h_large(ctx, m):
    """more groups and more observations than the fit under check"""
    m.fit(ctx.intarr([2, 0, 2, 1, 2]))
    m.random()
    m.complete(4)


def h_long(ctx, m):
    m.random(2)
    m.fit(ctx.intarr([1, 1]))
    m.random(1)
    m.fit(ctx.intarr([0, 1, 0]))
    m.complete(3)
    m.random()


def h_fitonly(ctx, m):
    m.fit(ctx.intarr([1, 0, 1]))


def h_finite(ctx, m):
    m.fit(ctx.intarr([1, 0, 1]))
    m.random()
    m.fit(ctx.intarr([0]))
    m.random()


HIST = {"small": h_small, "large": h_large, "long": h_long,
        "fitonly": h_fitonly, "two": h_finite}

for nm in _wm.ALL:
    if nm != "BiDa":
        for way in ("alias", "list"):
            for n, k in ((1, 1), (2, 2), (3, 2)):
                case("C06", f"{way}-{nm}-{n}-{k}", f"{n} labels below {k} "
                     "passed as a list" if way == "list" else f"the array of "
                     f"{n} labels below {k} changes after the fit",
                     name=nm, n=n, k=k, way=way, size=None,
                     tier="thorough" if n > 2 and nm in ("BBinn", "BBernp")
                     else "quick")(c05.posterior)
    hard = nm in ("BBinn", "BBernp", "BiDa")
    for hn, h in HIST.items():
        if nm in _wm.FINITE and hn in ("large", "long"):
            continue
        for k in (2, 3):
            if nm == "BBernp" and k == 3 and hn in ("large", "long"):
                continue
            case("C06", f"reset-{nm}-{hn}-{k}", f"history {hn}, reset, then "
                 f"{k} prior weights", name=nm, way="random", k=k, hist=h,
                 tier="thorough" if hard and (k == 3 or hn in (
                     "large", "long")) else "quick")(c04.prior)
        if nm == "BiDa":
            continue        # its inner assignments are a Markov state
        for n, k, way, size in ((2, 2, "default", None), (2, 3, "random", 4),
                                (3, 3, "default", None)):
            if nm in _wm.FINITE and way != "default":
                continue
            case("C06", f"refit-{nm}-{hn}-{n}-{k}-{way}", f"history {hn}, "
                 f"then fit {n} labels below {k} and draw", name=nm, n=n,
                 k=k, way=way, size=size, hist=h,
                 tier="thorough" if n == 3 or (hard and hn != "fitonly")
                 else "quick")(c05.posterior)
