"""Verdicts over merged statistics. Thresholds leave a probability of a false alarm below 1e-8 per check."""
import math

Z = 7.0


def chi2_z(chi2, dof):
    """Wilson-Hilferty: standard normal score"""
    return ((chi2 / dof) ** (1 / 3) - (1 - 2 / (9 * dof))) / math.sqrt(2 / (9 * dof))


def table(counts, expected):
    return sum((c - expected) ** 2 / expected for c in counts)


def verdict(rec, report, name, z, detail):
    report[name] = round(z, 2)
    rec.count('statistics_judged')
    if abs(z) > Z:
        rec.violation('the distribution is wrong: %s' % name, z=round(z, 1), detail=detail)


def martingales(agg, rec, report, min_var=30.0):
    """sums 'm/...' = [sum of (observed - expected), sum of variances, n]"""
    for name, v in sorted(agg.sums.items()):
        if name.startswith('m/'):
            s, var, n = v
            if var >= min_var:
                verdict(rec, report, name[2:], s / math.sqrt(var), 'sum of deviations %.1f, variance %.1f, %d placements'
                        % (s, var, n))
