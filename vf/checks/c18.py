"""C18: Wigner 3-j symbols and Clebsch-Gordan coefficients."""
import math
from fractions import Fraction
from functools import lru_cache

import numpy as np

from ..core import Sub, ints, lists, register

ASSUMPTIONS = ["oracle: Racah's sum in exact integer arithmetic"]


@lru_cache(200000)
def racah(j1, j2, j3, m1, m2, m3):
    """Exact 3-j symbol, rounded once."""
    if m1 + m2 + m3 or abs(m1) > j1 or abs(m2) > j2 or abs(m3) > j3 or not abs(j1 - j2) <= j3 <= j1 + j2:
        return 0.0
    f = math.factorial
    num = f(j1 + j2 - j3) * f(j1 - j2 + j3) * f(-j1 + j2 + j3)
    for j, m in ((j1, m1), (j2, m2), (j3, m3)):
        num *= f(j - m) * f(j + m)
    P = Fraction(num, f(j1 + j2 + j3 + 1))
    S = Fraction(0)
    for k in range(max(0, j2 - j3 - m1, j1 - j3 + m2), min(j1 + j2 - j3, j1 - m1, j2 + m2) + 1):
        S += Fraction((-1) ** k, f(k) * f(j1 + j2 - j3 - k) * f(j1 - m1 - k) * f(j2 + m2 - k) * f(j3 - j2 + m1 + k) * f(j3 - j1 - m2 + k))
    v = math.sqrt(float(S * S * P))
    return v * (1 if S > 0 else -1) * (-1) ** ((j1 - j2 - m3) % 2)


def quantum(jmax):
    """(j2, j3, m2, m3): anywhere, extreme or vanishing projections, tiny next to large."""
    from hypothesis import strategies as st

    def out(t):
        j2, j3, a, b, k = t
        j2, j3 = (j2, j3) if k % 3 else (j2, j3 % 5)
        m2, m3 = a % (2 * j2 + 1) - j2, b % (2 * j3 + 1) - j3
        if k == 4:
            m2 = m3 = 0
        if k == 5:
            m2 = j2 if a % 2 else -j2
        if k == 6:
            m3 = -m2 if abs(m2) <= j3 else m3
        if k == 7:
            m2, m3 = (j2, -j3) if a % 2 else (-j2, -j3)
        if k == 8:
            j3, m3 = j2, (m2 if b % 2 else -m2)
        return [j2, j3, m2, m3]

    return st.tuples(ints(0, jmax), ints(0, jmax), ints(0, 10**6), ints(0, 10**6), ints(0, 9)).map(out)


def make(jmax, n):
    def make_(prec):
        from hypothesis import strategies as st
        from jaxoplanet.starry.core.wigner3j import Wigner3j, Wigner3jCalculator, clebsch_gordan

        def prop(case, ctx):
            extra = case["extra"]
            J2, J3 = max(q[0] for q in case["calls"]) + extra, max(q[1] for q in case["calls"]) + extra
            calc = Wigner3jCalculator(J2, J3)
            for step, (j2, j3, m2, m3) in enumerate(case["calls"]):
                m1 = -m2 - m3
                info = f"j2, j3, m2, m3 = {j2, j3, m2, m3} (call {step})"
                got = np.array(calc.calculate(j2, j3, m2, m3), float)
                want = np.array([racah(j, j2, j3, m1, m2, m3) for j in range(J2 + J3 + 1)])
                ctx.close("all symbols with these two angular momenta", got, want, TOL * (1 + j2 + j3), info=info)
                js = [max(abs(j2 - j3), abs(m1)), j2 + j3, case["j1"] % (j2 + j3 + 2)]
                for j1 in js:
                    w = racah(j1, j2, j3, m1, m2, m3)
                    for a in ((0, 1, 2), (1, 0, 2), (2, 1, 0), (1, 2, 0)):
                        q = [(j1, m1), (j2, m2), (j3, m3)]
                        (a1, b1), (a2, b2), (a3, b3) = (q[i] for i in a)
                        s = 1 if a in ((0, 1, 2), (1, 2, 0)) else (-1) ** (j1 + j2 + j3)
                        ctx.close("symbol", Wigner3j(a1, a2, a3, b1, b2, b3), s * w, TOL * (1 + j2 + j3), info=f"{(a1, a2, a3, b1, b2, b3)}")
                    M = case["dm"]
                    ctx.close("projections that do not add up", Wigner3j(j1, j2, j3, m1 + M, m2, m3), w if M == 0 else 0.0, TOL * (1 + j2 + j3), info=info)
                    cg = (-1) ** (j2 - j3 - m1) * math.sqrt(2 * j1 + 1) * racah(j2, j3, j1, m2, m3, m1)
                    ctx.close("Clebsch-Gordan", clebsch_gordan(j2, m2, j3, m3, j1, -m1), cg, TOL * (1 + j2 + j3) ** 1.5, info=info)
                ctx.label("all projections zero", m1 == m2 == m3 == 0)
                ctx.label("single term", j2 + j3 == max(abs(j2 - j3), abs(m1)))
                ctx.nt(step > 0 and j2 > 0 and j3 > 0)

        strat = st.fixed_dictionaries(dict(calls=lists(quantum(jmax), n), extra=ints(0, 3), j1=ints(0, 10**4), dm=st.sampled_from([0, 0, 1, -1])))
        return strat, prop

    return make_


TOL = 1e-14
register("C18",
         Sub("small", make(8, 8), quick=1500, thorough=30000, shards=4, tshards=4, rule="several calls of one calculator, angular momenta not zero"),
         Sub("large", make(40, 5), quick=600, thorough=12000, shards=4, tshards=6, rule="several calls of one calculator, angular momenta not zero"))
