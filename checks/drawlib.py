"""Test of drawn vectors against a specified joint Gaussian law (innovations form)."""
import math

import numpy as np

NSIG = 7.0


class Draws:
    """Standardises drawn vectors and tests them, case by case and all together."""
    def __init__(self, ctx):
        self.ctx = ctx
        self.pool = {}

    def _pool(self, name, total, n, var):
        a = self.pool.setdefault(name, [0.0, 0.0])
        a[0] += total
        a[1] += n * var

    def add(self, vals, m, k, base, lrows, n, sd, fixed, scale):
        """vals: m draws of k values. Value i has mean base[i] + sum_j lrows[i][n+j] innovation_j and deviation sd[i];
        values flagged in `fixed` are determined. Returns a description of the first deviation, or None."""
        x = np.asarray(vals, dtype=float).reshape(m, k)
        inn, z = np.zeros((m, k)), np.zeros((m, k))
        for i in range(k):
            mu = base[i] + (inn[:, :i] @ np.array(lrows[i][n:n + i]) if i else 0.0)
            e = x[:, i] - mu
            if fixed[i]:
                worst = np.max(np.abs(e)) if np.all(np.isfinite(e)) else float("nan")
                if not worst <= 1e-6 * scale:
                    return "value %d is determined, but differs by up to %.6g" % (i, worst)
            else:
                inn[:, i] = e
                z[:, i] = e / sd[i]
                worst = np.max(np.abs(z[:, i])) if np.all(np.isfinite(e)) else float("nan")
                if not worst < 12:
                    return "value %d is up to %.3g standard deviations away" % (i, worst)
        s1, s2 = z.sum(axis=0), z.T @ z
        free = [i for i in range(k) if not fixed[i]]
        for i in free:
            a, b = s1[i] / math.sqrt(m), (s2[i, i] - m) / math.sqrt(2 * m)
            if self.ctx:
                self.ctx.maxi("max_standard_errors", float(max(abs(a), abs(b))))
            if not abs(a) < NSIG:
                return "mean of value %d is off by %.1f standard errors" % (i, a)
            if not abs(b) < NSIG:
                return "variance of value %d is %.4g of the specified one" % (i, s2[i, i] / m)
            where = "first" if i == 0 else "later"
            self._pool("means, %s values" % where, s1[i], m, 1)
            self._pool("variances, %s values" % where, s2[i, i] - m, m, 2)
            self._pool("third moments", (z[:, i] ** 3).sum(), m, 15)
            self._pool("fourth moments", (z[:, i] ** 4).sum() - 3 * m, m, 96)
            for j in free:
                if j < i:
                    c = s2[i, j] / math.sqrt(m)
                    if not abs(c) < NSIG:
                        return "values %d and %d have correlation residual %.3g" % (i, j, s2[i, j] / m)
                    self._pool("products of neighbours" if j == i - 1 else "other products", s2[i, j], m, 1)
                    self._pool("products of squares", ((z[:, i] ** 2 - 1) * (z[:, j] ** 2 - 1)).sum(), m, 4)
        # no memory from one draw to the next
        if m > 1:
            for i in free:
                a = (z[1:, i] * z[:-1, i]).sum()
                if not abs(a) < NSIG * math.sqrt(m):
                    return "value %d of successive draws is correlated (%.3g)" % (i, a / m)
                self._pool("successive draws", a, m - 1, 1)
        return None

    def finish(self):
        """Deviations of the pooled statistics"""
        bad = []
        for name, (tot, v) in sorted(self.pool.items()):
            if v > 0:
                s = tot / math.sqrt(v)
                self.ctx.maxi("max_pooled_standard_errors", abs(float(s)))
                if not abs(s) < 6.5:
                    bad.append("%s of all standardised draws together are off by %.1f standard errors" % (name, s))
        return bad
