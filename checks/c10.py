"""C10: variational posterior of the weights: expected weights"""
from symx.harness import case
from checks import _wm, _var


def mean(ctx, name, k, n, hist):
    m, p, a = _var.fitted(ctx, name, k, n, hist)
    got = [m.variational_mean_w_j(j) for j in range(k + 2)]
    ref = _var.means(ctx, name, p, a, k, n)
    for j in range(k):
        ctx.eq(got[j], ref[j], "expected weight of each component")
    for j in (k, k + 1):
        ctx.eq(got[j], 0, "no weight outside the truncation")
    if name in ("EQ", "FR"):
        ctx.close(ctx.sum(got[:k]), 1, 1e-9, "expected weights sum to one")
    elif name != "GP":
        ctx.eq(ctx.sum(got[:k]), 1, "expected weights sum to one")
    elif k * n < 8:
        # implied by the exact values, and slow for more components
        ctx.le(ctx.sum(got[:k]), 1, "expected weights do not exceed one")
    for g in got[:k] if name != "GP" or k * n < 8 and k < 5 \
            else []:
        ctx.le(0, g, "expected weights are not negative")
    ctx.eq_all([m.variational_mean_w_j(j) for j in range(k)], got[:k],
               "asking again changes nothing")
    ctx.out("m", got)


def unfitted(ctx, name):
    m, _ = _wm.make(ctx, name, k=2)
    e = ctx.load("pyrichlet.exceptions").NotFittedError
    for f, a in (("variational_mean_w_j", (0,)),
                 ("variational_mean_log_w_j", (0,)),
                 ("variational_mean_log_p_d__w", ()),
                 ("variational_mean_log_p_w", ()),
                 ("variational_mean_log_q_w", ()),
                 ("variational_mode_w_j", (0,))):
        if name == "EQ" and f != "variational_mean_log_p_d__w":
            continue
        ctx.raises(e, lambda: getattr(m, f)(*a), f"{f} before fitting")


for nm in _var.NAMES:
    for k, n, hist in _var.SHAPES + [(3, 3, "hard")]:
        if (nm == "DDs" and hist) or (nm in ("DD", "DDs") and hist == "k"):
            continue
        if nm == "GP" and (k, n) in ((6, 1), (8, 1)):
            continue
        case("C10", f"{nm}-{k}-{n}-{hist}", f"{k} components, {n} "
             f"observations with symbolic responsibilities, {hist}", name=nm,
             k=k, n=n, hist=hist, tier=_var.tier(k, n))(mean)
    case("C10", f"unfitted-{nm}", "no fit yet", name=nm)(unfitted)
