"""C13: modes of the weights under the variational posterior"""
from symx.harness import case
from checks import _var


def beta_mode(a, b):
    if a <= 1:
        return None if b <= 1 else 0
    return 1 if b <= 1 else (a - 1) / (a + b - 2)


def mode(ctx, name, k, n, hist, js):
    m, p, rows = _var.fitted(ctx, name, k, n, hist)
    q = _var.params(ctx, name, p, rows, k, n)
    for j in js:
        f = lambda: m.variational_mode_w_j(j)
        if j >= k:
            ctx.eq(f(), 0, "no weight outside the truncation")
            continue
        if name in ("EQ", "FR"):
            ctx.eq(f(), _var.means(ctx, name, p, rows, k, n)[j],
                   "mode of a fixed weight")
            continue
        if name in ("DD", "DDs"):
            want = beta_mode(q[j], ctx.sum(q) - q[j])
        else:
            want = 1
            for t in range(j + 1):
                if name != "GP" and t == k - 1:
                    break
                v = beta_mode(*q[0 if name == "GP" else t])
                if v is None:
                    want = None
                    break
                want = want * (v if t == j else 1 - v)
                if not hasattr(v, "r") and v == 1 and t < j:
                    break
        if want is None:
            ctx.raises(ValueError, f, "no single mode")
        else:
            ctx.eq(f(), want, "product of the modes of the fractions")


for nm in _var.NAMES:
    for k, n, hist in ((1, 1, None), (2, 1, None), (2, 2, None),
                       (3, 1, None), (3, 2, None), (2, 0, None),
                       (2, 1, "k"), (4, 1, None), (5, 1, None), (2, 4, None),
                       (3, 2, "same"), (2, 2, "gibbs")):
        if (nm == "DDs" and hist) or (nm in ("DD", "DDs") and hist == "k"):
            continue
        for j in range(k + 1):
            case("C13", f"{nm}-{k}-{n}-{hist}-{j}", f"component {j} of {k}, "
                 f"{n} observations with symbolic responsibilities, {hist}",
                 name=nm, k=k, n=n, hist=hist, js=(j,),
                 tier="quick")(mode)
