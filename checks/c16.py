"""TaylorF2 against the published post-Newtonian expansion, written down
independently (in symmetric/antisymmetric spins, exact rational coefficients)."""
import math
from fractions import Fraction as Fr

from vf import m
from checks import lib, c23

LEVEL = "model_checking"
EXPLAIN = "the strain and both polarizations equal the 3.5PN stationary-phase expansion with spin-orbit, spin-spin, quadrupole and 5-7PN tidal terms (Buonanno et al. 2009, Mishra et al. 2016, Damour-Nagar-Villain 2012), amplitude and constant phase included, for both forms of tidal parameters; decided by the solver over the whole parameter box"
TASK_NAMES = ["TF2", "TF2L", "low", "low1", "low2", "low-tilde", "refs"]
OUTSIDE = "reference frequencies other than 0, 5, 20, 50, 75, 100 and 300 Hz (the code takes a Python number); changes below 1e-6 relative; float rounding"

C = 299792458.0
# G Msun/c^3 with the solar mass of the code's constants, nominal G Msun/c^2
MS, MR = 6.67430e-11 * 1.988409902147041637325262574352366540e30 / C ** 3, 1.476625038050124729627979840144936351e3
MPC = 3.085677581491367e22
GE = 0.5772156649015329
PI = math.pi


def F(a, b=1):
    return float(Fr(a, b))


def quad(l, low=False):
    if low:
        return c23.low(l)
    return m.exp(c23.poly(c23.Q, m.log(l)))


def series(d, c1, c2, l1, l2, k1, k2):
    """PN coefficients {n: coefficient of v^n}, {n: coefficient of v^n log v}
    for mass difference ratio d = (m1-m2)/(m1+m2)."""
    e = 0.25 * (1.0 - d * d)
    X, Y = 0.5 * (1.0 + d), 0.5 * (1.0 - d)
    s, a = 0.5 * (c1 + c2), 0.5 * (c1 - c2)
    p, lg = {0: 1.0}, {}
    p[2] = F(3715, 756) + F(55, 9) * e
    p[3] = -16.0 * PI + F(113, 3) * d * a + (F(113, 3) - F(76, 3) * e) * s
    # self-spin and quadrupole-monopole at 2PN: -(50 k) X^2 c^2 + (1-7)/9.6 X^2 c^2
    x2, y2 = X * X * c1 * c1, Y * Y * c2 * c2
    p[4] = F(15293365, 508032) + F(27145, 504) * e + F(3085, 72) * e * e
    p[4] = p[4] - F(474, 48) * 10.0 * e * c1 * c2 - (50.0 * k1 + F(5, 8)) * x2 - (50.0 * k2 + F(5, 8)) * y2
    so5 = -((F(732985, 2268) - F(24260, 81) * e - F(340, 9) * e * e) * s + (F(732985, 2268) + F(140, 9) * e) * d * a)
    p[5] = PI * (F(38645, 756) - F(65, 9) * e) + so5
    lg[5] = 3.0 * p[5]
    p[6] = F(11583231236531, 4694215680) - F(640, 3) * PI * PI - F(6848, 21) * (GE + 2.0 * math.log(2.0))
    p[6] = p[6] + (-F(15737765635, 3048192) + F(2255, 12) * PI * PI) * e + F(76055, 1728) * e * e - F(127825, 1296) * e * e * e
    lg[6] = -F(6848, 21)
    # tail spin-orbit at 3PN: pi (2270/3 d a + (2270/3 - 520 e) s)
    p[6] = p[6] + PI * (F(2270, 3) * d * a + (F(2270, 3) - 520.0 * e) * s)
    ss = (F(32675, 112) + F(5575, 18) * e) * e * c1 * c2

    def ss3(X, k, w):
        return ((F(47035, 84) + F(2935, 6) * X - 120.0 * X * X) * k - F(410825, 672) - F(1085, 12) * X + F(1255, 36) * X * X) * w

    p[6] = p[6] + ss + ss3(X, k1, x2) + ss3(Y, k2, y2)
    p[7] = PI * (F(77096675, 254016) + F(378515, 1512) * e - F(74045, 756) * e * e)
    p[7] = p[7] + (-F(25150083775, 3048192) + F(10566655595, 762048) * e - F(1042165, 3024) * e * e + F(5345, 36) * e * e * e) * s
    p[7] = p[7] + (-F(25150083775, 3048192) + F(26804935, 6048) * e - F(1985, 48) * e * e) * d * a

    def tide(X, l):
        X4 = X * X * X * X
        X2, X3 = X * X, X * X * X
        return {10: -24.0 * (12.0 - 11.0 * X) * X4 * l,
                12: -F(5, 28) * (3179.0 - 919.0 * X - 2286.0 * X2 + 260.0 * X3) * X4 * l,
                13: 24.0 * PI * (12.0 - 11.0 * X) * X4 * l,
                14: -5.0 * (F(193986935, 571536) - F(14415613, 381024) * X - F(57859, 378) * X2 - F(209495, 1512) * X3 + F(965, 54) * X4 - 4.0 * X4 * X) * X4 * l}

    t1, t2 = tide(X, l1), tide(Y, l2)
    for n in t1:
        p[n] = t1[n] + t2[n]
    return e, p, lg


def psi(v, e, p, lg):
    r = 0.0
    for n in sorted(p):
        c = p[n]
        if n in lg:
            c = c + lg[n] * m.log(v)
        r = r + c * m.P(v, n - 5)
    return r * 3.0 / (128.0 * e)


def strain(w, f, d, c1, c2, l1, l2, k1, k2, D, tc, phic, fref):
    Ms = w["M"] * MS
    e, p, lg = series(d, c1, c2, l1, l2, k1, k2)
    v = m.P(PI * Ms * f, Fr(1, 3))
    ph = psi(v, e, p, lg) + 2.0 * PI * f * tc - 2.0 * phic - PI / 4
    if fref:
        ph = ph - psi(m.P(PI * Ms * fref, Fr(1, 3)), e, p, lg)
    # sqrt(5 eta/24) pi^(-2/3) (G M/c^3)^(5/6) f^(-7/6) / (D/c), with the sign of LAL
    A = -math.sqrt(5.0 / 24.0) * PI ** (-2.0 / 3.0) * m.sqrt(e) * m.P(Ms, Fr(5, 6)) * m.P(f, Fr(-7, 6)) * (MR / MS) / (D * MPC)
    return A * m.cis(-ph)


LOW, HIGH = (0.0, 0.9999999), (1.0, 5000.0)


def task(name, low=(False, False), refs=(20.0,)):
    def run_task(ctx):
        for fr in refs:
            def prop(w, run):
                d, c1, c2, l1, l2 = w["d"], w["chi1"], w["chi2"], w["l1"], w["l2"]
                e = 0.25 * (1.0 - d * d)
                L1, L2 = l1, l2
                if name == "TF2":
                    # Lambda~, delta Lambda~ of the individual deformabilities
                    from checks.c02 import spec
                    L1, L2 = spec(l1, l2, d)
                f = lib.fr(w)
                p = lib.params(name, dict(w, l1=L1, l2=L2))
                a = run(lib.gen(name, True, fr), [f], p)
                b = run(lib.gen(name, False, fr), [f], p[:-1])
                h = strain(w, f, d, c1, c2, l1, l2, quad(l1, low[0]), quad(l2, low[1]), w["D"], w["tc"], w["phic"], fr)
                ci = m.cos(w["iota"])
                return [("h0", m.el(b), h), ("hp", m.el(a[0]), 0.5 * (1.0 + ci * ci) * h), ("hc", m.el(a[1]), -1.0 * m.I(ci * h))]

            bx = lib.wbox(name)
            bx.update({f"l{i + 1}": LOW if low[i] else HIGH for i in (0, 1)})
            bx["x"] = (2e-5, 0.3)
            ctx.equal(f"post-Newtonian expansion, f_ref {fr:g}", prop, bx)

    return run_task


TASKS = {"TF2": task("TF2"), "TF2L": task("TF2L"), "low": task("TF2L", (True, True)), "low1": task("TF2L", (True, False)),
         "low2": task("TF2L", (False, True)), "low-tilde": task("TF2", (True, True)), "refs": task("TF2L", refs=(0.0, 5.0, 50.0, 75.0, 100.0, 300.0))}
