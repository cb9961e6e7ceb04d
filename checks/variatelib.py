"""Frequencies of drawn variates against the specified distribution function."""
from vlib.quint import ONE

SIGMAS = 6.5


def compare(ctx, what, n, ps, one, two, case):
    """Counts of n draws not above each grid point, singly and for two successive draws."""
    for k, p in enumerate(ps):
        p = min(1.0, max(0.0, p / ONE))
        ctx.count("grid_points")
        d = one[k] - n * p
        v = n * p * (1 - p)
        if v > 1:
            ctx.maxi("max_standard_errors", abs(d) / v ** 0.5)
        if abs(d) > SIGMAS * v ** 0.5 + 12 * (v > 0) or (v == 0 and d):
            ctx.fail("%s: %d of %d draws do not exceed grid point %d, specified probability %.6f" % (what, one[k], n, k, p), **case)
            return
        # successive draws are independent
        v = n * p * p * (1 - p * p) * 1.5 + n * (p ** 3) * (1 - p) * 2
        if abs(two[k] - (n - 1) * p * p) > SIGMAS * v ** 0.5 + 12:
            ctx.fail("%s: %d of %d pairs of successive draws do not exceed grid point %d, specified probability %.6f"
                     % (what, two[k], n - 1, k, p * p), **case)
            return
