"""C09: random assignments follow the normalised weights"""
from symx.harness import case
from checks import _wm


def assign(ctx, name, k, size, n=0):
    m, p = _wm.make(ctx, name, k=k)
    if n:
        m.fit(ctx.clabels("d", n, k))
        m.random()
    else:
        m.random(k)
    w = list(m.get_weights())
    nd = len(ctx.draws())
    r = m.random_assignment(size) if size != "default" else \
        m.random_assignment()
    us = ctx.draws()[nd:]
    shape = () if size in (None, "default") else (
        (size,) if isinstance(size, int) else tuple(size))
    tot = 1
    for s in shape:
        tot *= s
    if shape == ():
        ctx.check(not hasattr(r, "__len__") or getattr(r, "shape", 0) == (),
                  "a single assignment without a size")
        rs = [r]
    else:
        ctx.check(tuple(r.shape) == shape, "one assignment per requested cell")
        rs = ctx._flat(r)
    ctx.check(len(rs) == tot, "number of assignments")
    ctx.check(len(us) == tot, "one uniform per assignment")
    s = ctx.sum(w)
    for x, u in zip(rs, us):
        ctx.check(u.kind == "uniform", "driven by uniforms")
        ctx.eq(u.params["low"], 0, "standard uniform")
        ctx.eq(u.params["high"], 1, "standard uniform")
        hit = None
        for j in range(len(w)):
            if ctx.same(x, j):
                hit = j
        ctx.check(hit is not None, "an index of the weights")
        if hit is None:
            continue
        ctx.le(ctx.sum(w[:hit]), u.value * s, "cumulative weight before")
        ctx.le(u.value * s, ctx.sum(w[:hit + 1]), "cumulative weight after")
    ctx.eq_all(list(m.get_weights()), w, "weights are not changed")
    ctx.out("d", rs)


for nm in _wm.ALL:
    hard = nm in ("BBinn", "BiDa", "BBernp")
    for k, size in ((1, 2), (2, None), (2, "default"), (3, None), (2, 2),
                    (3, 2), (2, (2, 1)), (4, 1), (2, 3)):
        case("C09", f"{nm}-{k}-{size}", f"{k} weights, size {size}", name=nm,
             k=k, size=size, tier="thorough" if hard and k > 2 else "quick"
             )(assign)
    if nm in ("GP", "DD"):
        case("C09", f"{nm}-7-1", "7 weights", name=nm, k=7, size=1)(assign)
    case("C09", f"{nm}-fit", "after fitting 2 labels below 2", name=nm, k=2,
         size=2, n=2, tier="thorough" if hard else "quick")(assign)
