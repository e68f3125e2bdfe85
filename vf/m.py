"""Arithmetic that works on symbolic nodes and on plain numbers alike, so that
a property is written once and both proved (symbolically) and replayed."""
import math
from fractions import Fraction
import numpy as np

from . import expr as E
from .expr import Node, Cx


def symbolic(*xs):
    return any(isinstance(x, (Node, Cx)) for x in xs)


def P(x, q):
    """x**q for a rational exponent."""
    q = Fraction(q)
    if symbolic(x):
        return E.powr(x, q)
    return np.float64(x) ** (int(q) if q.denominator == 1 else float(q))


def _f(name, npf):
    def g(x):
        if symbolic(x):
            return E.fn(name, x)
        return npf(x)

    return g


sin = _f("sin", np.sin)
cos = _f("cos", np.cos)
log = _f("log", np.log)


def exp(x):
    if isinstance(x, Cx):
        return E.cexp(x)
    if symbolic(x):
        return E.fn("exp", x)
    return np.exp(x)


def sqrt(x):
    return P(x, Fraction(1, 2))


def cis(t):
    """exp(i t)"""
    if symbolic(t):
        return Cx(E.fn("cos", t), E.fn("sin", t))
    return np.exp(1j * np.float64(t))


def I(x):
    if symbolic(x):
        return Cx(E.const(0.0), x) if not isinstance(x, Cx) else Cx(E.neg(x.im), x.re)
    return 1j * x


def cx(re, im):
    if symbolic(re, im):
        return Cx(E.N(re), E.N(im))
    return complex(re, im)


def conj(x):
    if isinstance(x, Cx):
        return x.conjugate()
    if symbolic(x):
        return x
    return np.conj(x)


def re(x):
    if isinstance(x, Cx):
        return x.re
    return x if symbolic(x) else np.real(x)


def im(x):
    if isinstance(x, Cx):
        return x.im
    return E.const(0.0) if symbolic(x) else np.imag(x)


def abs2(x):
    if isinstance(x, Cx):
        return x.re * x.re + x.im * x.im
    return x * x if symbolic(x) else np.abs(x) ** 2


def absv(x):
    return E.abs_(x) if symbolic(x) else np.abs(x)


def where(c, a, b):
    if symbolic(c, a, b):
        return E.ite(c if symbolic(c) else E.tobool(E.N(float(bool(c)))), E.N(a), E.N(b))
    return a if c else b


def lt(a, b):
    return E.lt(E.N(a), E.N(b)) if symbolic(a, b) else bool(a < b)


def le(a, b):
    return E.le(E.N(a), E.N(b)) if symbolic(a, b) else bool(a <= b)


def el(x, *idx):
    """Element of an output array, symbolic or concrete."""
    a = np.asarray(x) if not isinstance(x, np.ndarray) else x
    v = a[idx] if idx else (a[()] if a.shape == () else a.reshape(-1)[0])
    if isinstance(v, np.generic):
        return v.item()
    return v
