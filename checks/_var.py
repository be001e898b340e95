"""Variational posteriors of weighting structures: symbolic responsibilities
and reference moments written from the model definitions."""
from checks import _wm

NAMES = ["DP", "PY", "GP", "DD", "DDs", "EQ", "FR"]
SHAPES = [(1, 1, None), (1, 2, None), (2, 1, None), (2, 2, None),
          (3, 1, None), (3, 2, None), (2, 0, None), (4, 2, None),
          (2, 3, None), (4, 3, None), (5, 2, None),
          (5, 1, None), (6, 1, None), (8, 1, None), (1, 5, None),
          (2, 5, None),
          (2, 2, "k"), (3, 2, "same"), (2, 2, "gibbs"), (3, 1, "k"),
          (2, 2, "hard")]


def tier(k, n):
    return "thorough" if k * n > 12 else "quick"


def resp(ctx, name, k, n):
    """k x n matrix of probabilities whose columns sum to one"""
    rows = [[None] * n for _ in range(k)]
    for i in range(n):
        rest = 1
        for j in range(k - 1):
            rows[j][i] = ctx.real(f"{name}{j}_{i}", 0, 1, lo_open=False,
                                  hi_open=False)
            rest = rest - rows[j][i]
        if k > 1:
            ctx.assume(rest >= 0)
        rows[k - 1][i] = rest
    return rows


def matrix(ctx, rows, n):
    if n == 0:
        import numpy as np
        return np.zeros((len(rows), 0))
    return ctx.arr(rows)


def fitted(ctx, name, k, n, hist=None):
    """-> structure with a fitted variational posterior, its parameters and
    the responsibilities"""
    m, p = _wm.make(ctx, name, k=k)
    if hist == "k":
        m.fit_variational(matrix(ctx, resp(ctx, "old", k + 1, 2), 2))
    elif hist == "same":
        m.fit_variational(matrix(ctx, resp(ctx, "old", k, 1), 1))
    elif hist == "gibbs":
        m.fit(ctx.clabels("d", 1, k))
        m.random()
    if hist == "hard":
        # integer matrix of zeros and ones
        import numpy as np
        d = [int(x) for x in ctx.clabels("d", n, k)]
        a = np.array([[int(x == j) for x in d] for j in range(k)])
        m.fit_variational(a)
        return m, p, a.tolist()
    rows = resp(ctx, "phi", k, n)
    a = matrix(ctx, rows, n)
    m.fit_variational(a)
    return m, p, rows


def params(ctx, name, p, rows, k, n):
    """Beta parameters of the free stick fractions (k-1 of them; one for the
    geometric process); Dirichlet parameters for the Dirichlet distribution"""
    s = [ctx.sum(r) if n else 0 for r in rows]
    if name in ("DP", "PY"):
        d = p.pyd if name == "PY" else 0
        return [(1 - d + s[j], p.alpha + (j + 1) * d + ctx.sum(s[j + 1:]))
                for j in range(k - 1)]
    if name == "GP":
        return [(p.a + n, p.b + ctx.sum(j * s[j] for j in range(1, k))
                 if k > 1 else p.b)]
    if name in ("DD", "DDs"):
        return [p.alpha[j] + s[j] for j in range(k)]
    return s


def means(ctx, name, p, rows, k, n):
    q = params(ctx, name, p, rows, k, n)
    if name in ("DP", "PY"):
        out, rest = [], 1
        for a, b in q:
            out.append(rest * a / (a + b))
            rest = rest * b / (a + b)
        return out + [rest]
    if name == "GP":
        a, b = q[0]
        out, t = [], a / (a + b)
        for j in range(k):
            out.append(t)
            t = t * (b + j) / (a + b + j + 1)
        return out
    if name in ("DD", "DDs"):
        return [x / ctx.sum(q) for x in q]
    if name == "FR" and n:
        return [x / n for x in q]
    return [1 / ctx.rational(k)] * k if hasattr(ctx, "rational") \
        else [1 / k] * k


def logbeta(ctx, a, b):
    return ctx.digamma(a) - ctx.digamma(a + b)


def logmeans(ctx, name, p, rows, k, n):
    q = params(ctx, name, p, rows, k, n)
    if name in ("DP", "PY"):
        out, rest = [], 0
        for a, b in q:
            out.append(rest + logbeta(ctx, a, b))
            rest = rest + logbeta(ctx, b, a)
        return out + [rest]
    if name == "GP":
        a, b = q[0]
        return [logbeta(ctx, a, b) + j * logbeta(ctx, b, a)
                for j in range(k)]
    if name in ("DD", "DDs"):
        t = ctx.digamma(ctx.sum(q))
        return [ctx.digamma(x) - t for x in q]
    return None
