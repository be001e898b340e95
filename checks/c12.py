"""C12: expected log prior and log variational density of the weights"""
from symx.harness import case
from checks import _var


def terms(ctx, name, k, n, hist):
    m, p, rows = _var.fitted(ctx, name, k, n, hist)
    q = _var.params(ctx, name, p, rows, k, n)
    lb, bln, lg = _var.logbeta, ctx.betaln, ctx.lgamma
    if name in ("DP", "PY"):
        d = p.pyd if name == "PY" else 0
        prior = [(1 - d, p.alpha + (j + 1) * d) for j in range(k - 1)]
    elif name == "GP":
        prior = [(p.a, p.b)]
    if name in ("DP", "PY", "GP"):
        lp = lq = 0
        for (a, b), (a0, b0) in zip(q, prior):
            x, y = lb(ctx, a, b), lb(ctx, b, a)
            lp = lp + (a0 - 1) * x + (b0 - 1) * y - bln(a0, b0)
            lq = lq + (a - 1) * x + (b - 1) * y - bln(a, b)
    elif name in ("DD", "DDs"):
        e = _var.logmeans(ctx, name, p, rows, k, n)
        lp = lg(ctx.sum(p.alpha)) + ctx.sum(
            (a - 1) * x - lg(a) for a, x in zip(p.alpha, e))
        lq = lg(ctx.sum(q)) + ctx.sum(
            (a - 1) * x - lg(a) for a, x in zip(q, e))
    else:
        lp = lq = 0
    ctx.eq(m.variational_mean_log_p_w(), lp, "expected log prior density")
    ctx.eq(m.variational_mean_log_q_w(), lq,
           "expected log variational density")
    if n == 0:
        ctx.eq(m.variational_mean_log_p_w(), m.variational_mean_log_q_w(),
               "without data the posterior is the prior")
    ctx.out("p", lp)
    ctx.out("q", lq)


for nm in _var.NAMES:
    for k, n, hist in _var.SHAPES:
        if (nm == "DDs" and hist) or (nm in ("DD", "DDs") and hist == "k"):
            continue
        case("C12", f"{nm}-{k}-{n}-{hist}", f"{k} components, {n} "
             f"observations with symbolic responsibilities, {hist}", name=nm,
             k=k, n=n, hist=hist, tier=_var.tier(k, n))(terms)
