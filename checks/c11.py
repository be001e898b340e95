"""C11: expected log weights and expected log probability of an assignment"""
from symx.harness import case
from checks import _var

INF = float("inf")


def logs(ctx, name, k, n, hist):
    m, p, rows = _var.fitted(ctx, name, k, n, hist)
    if name == "FR":
        s = [ctx.sum(r) if n else 0 for r in rows]
        for r in s:
            if n:
                ctx.assume(r > 0)
        ref = [ctx.log(r / n) if n else ctx.log(1 / k) for r in s]
    elif name == "EQ":
        ref = [-ctx.log(k)] * k
    else:
        ref = _var.logmeans(ctx, name, p, rows, k, n)
    got = [m.variational_mean_log_w_j(j) for j in range(k)]
    for j in range(k):
        ctx.eq(got[j], ref[j], "expected log weight")
    for j in (k, k + 1):
        ctx.check(m.variational_mean_log_w_j(j) == -INF,
                  "a component outside the truncation has no mass")
    t = ctx.sum(ctx.sum(rows[j]) * ref[j] for j in range(k)) if n else 0
    ctx.eq(m.variational_mean_log_p_d__w(), t,
           "expected log probability of the fitted assignment")
    other = _var.resp(ctx, "psi", k, 2)
    t = ctx.sum(ctx.sum(other[j]) * ref[j] for j in range(k))
    ctx.eq(m.variational_mean_log_p_d__w(_var.matrix(ctx, other, 2)), t,
           "expected log probability of a given assignment")
    ctx.eq_all([m.variational_mean_log_w_j(j) for j in range(k)], got,
               "asking changes nothing")
    ctx.out("m", got)


def empty(ctx, k, n):
    """frequency structure with a component nobody is responsible for"""
    m, p = _var._wm.make(ctx, "FR", k=k)
    rows = _var.resp(ctx, "phi", k - 1, n)
    rows.insert(0, [0.0] * n)
    m.fit_variational(_var.matrix(ctx, rows, n))
    for j in range(1, k):
        ctx.assume(ctx.sum(rows[j]) > 0)
    ctx.check(m.variational_mean_log_w_j(0) == -INF, "an empty component")
    ctx.eq(m.variational_mean_log_p_d__w(),
           ctx.sum(ctx.sum(rows[j]) * ctx.log(ctx.sum(rows[j]) / n)
                   for j in range(1, k)),
           "empty components add nothing")


for nm in _var.NAMES:
    for k, n, hist in _var.SHAPES:
        if (nm == "DDs" and hist) or (nm in ("DD", "DDs") and hist == "k"):
            continue
        case("C11", f"{nm}-{k}-{n}-{hist}", f"{k} components, {n} "
             f"observations with symbolic responsibilities, {hist}", name=nm,
             k=k, n=n, hist=hist, tier=_var.tier(k, n))(logs)
case("C11", "FR-empty", "3 components, 2 observations", k=3, n=2)(empty)
