"""Reference two-body solution in extended precision (numpy longdouble), independent of the code
under test: safeguarded Newton on Kepler's equation, cancellation-free near E = 0."""
import numpy as np

L = np.longdouble
PI = L("3.14159265358979323846264338327950288")
TWO_PI = 2 * PI


def _E_minus_sinE(E):
    s = E - np.sin(E)
    E2 = E * E
    small = np.abs(E) < 0.6
    term = E * E2 / 6
    acc = term.copy()
    for k in range(2, 14):
        term = -term * E2 / ((2 * k) * (2 * k + 1))
        acc = acc + term
    return np.where(small, acc, s)


def solve(M, e):
    """True anomaly (sin f, cos f) plus reduced M, eccentric anomaly."""
    M = np.asarray(M, dtype=L)
    e = np.asarray(e, dtype=L)
    M, e = np.broadcast_arrays(M, e)
    Mr = M - TWO_PI * np.floor(M / TWO_PI + L(0.5))  # [-pi, pi)
    sgn = np.where(Mr < 0, L(-1), L(1))
    m = np.abs(Mr)
    ome = 1 - e
    lo = m.copy()
    hi = np.minimum(m + e, PI)
    # a good start for the near-parabolic, small-M corner: (1-e)E + e E^3/6 = m
    E = np.where(e < 0.8, m + e * np.sin(m), np.minimum(np.cbrt(6 * m / np.maximum(e, L(0.5))), hi))
    E = np.clip(E, lo, hi)
    for _ in range(200):
        g = ome * E + e * _E_minus_sinE(E) - m
        lo = np.where(g <= 0, E, lo)
        hi = np.where(g >= 0, E, hi)
        dg = ome + 2 * e * np.sin(E / 2) ** 2
        step = np.where(dg > 0, g / np.where(dg > 0, dg, 1), L(0))
        En = E - step
        bad = (En < lo) | (En > hi) | (dg <= 0)
        En = np.where(bad, (lo + hi) / 2, En)
        if np.all(np.abs(En - E) <= L(1e-19) * (np.abs(E) + L(1e-30))):
            E = En
            break
        E = En
    E = sgn * E
    sE = np.sin(E)
    oneme_cos = ome + 2 * e * np.sin(E / 2) ** 2  # 1 - e cos E
    sinf = np.sqrt((1 - e) * (1 + e)) * sE / oneme_cos
    cosf = (ome - 2 * np.sin(E / 2) ** 2) / oneme_cos
    return sinf, cosf, Mr, E


def dfdM(cosf, e):
    e = np.asarray(e, dtype=L)
    return (1 + e * cosf) ** 2 / ((1 - e) * (1 + e)) ** L(1.5)


def dfde(sinf, cosf, e):
    e = np.asarray(e, dtype=L)
    return (2 + e * cosf) * sinf / ((1 - e) * (1 + e))
