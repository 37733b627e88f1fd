"""Closed form of a motion resting at both ends which passes through a point half way."""


def piece(t, t0, t1, y0, y1, via=None):
    T = float(t1 - t0)
    s = (t - t0) / T
    k = 0. if via is None else 64 * (via - .5 * (y0 + y1))
    d = y1 - y0
    p = y0 + d * s ** 3 * (10 - 15 * s + 6 * s * s) + k * s ** 3 * (1 - s) ** 3
    v = d * 30 * s * s * (1 - s) ** 2 + 3 * k * s * s * (1 - s) ** 2 * (1 - 2 * s)
    return p, v / T


def through(t, knots):
    """knots: (instant, value); rests at every one"""
    for a, b in zip(knots, knots[1:]):
        if t <= b[0]:
            break
    return piece(t, a[0], b[0], a[1], b[1])
