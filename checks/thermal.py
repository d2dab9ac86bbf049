"""The thermal integrals by quadrature, and the series of the manual."""
import functools
import math

NODES = []
for _i in range(-80, 81):
    _t = _i * 0.05
    _u = math.pi / 2 * math.sinh(_t)
    if abs(_u) < 340:
        _w = math.pi / 2 * math.cosh(_t) / math.cosh(_u) ** 2
        if _w > 1e-290:
            NODES.append((_u > 0, 1 / (math.exp(abs(_u)) * math.cosh(_u)), _w * 0.05))


def quad(f, a, b):
    """Double-exponential rule; f(y, from_a, from_b) gets the distances to the ends."""
    r = (b - a) / 2
    s = 0.0
    for right, d, w in NODES:
        d *= r
        s += w * (f(b - d, b - a - d, d) if right else f(a + d, d, b - a - d))
    return s * r


def log_b(e):
    return math.log(-math.expm1(-e))


def log_f(e):
    return math.log1p(math.exp(-e))


def integral(boson, x, d=0):
    if x < 0:
        return negative(x, d)
    a = math.sqrt(x)
    if boson:
        g = (lambda e, da: math.sqrt(da * (e + a)) * e * log_b(e)) if d == 0 else (lambda e, da: math.sqrt(da * (e + a)) / 2 * math.exp(-e) / -math.expm1(-e))
    else:
        g = (lambda e, da: math.sqrt(da * (e + a)) * e * log_f(e)) if d == 0 else (lambda e, da: -math.sqrt(da * (e + a)) / 2 * math.exp(-e) / (1 + math.exp(-e)))
    s = quad(lambda e, da, db: g(e, da), a, a + 2)
    for lo, hi in ((2, 10), (10, 60)):
        s += quad(lambda e, da, db: g(e, e - a), a + lo, a + hi)
    return s


def negative(x, d=0):
    """Real part of the integral of a boson of negative squared mass."""
    if d == 1:
        h = min(1e-3, -x / 4)
        return (negative(x + h) - negative(x - h)) / (2 * h)
    a = math.sqrt(-x)
    edges = [0.0]
    while edges[-1] + 2 * math.pi < a:
        edges.append(edges[-1] + 2 * math.pi)
    edges.append(a)
    s = 0.0
    for lo, hi in zip(edges, edges[1:]):
        last = hi == a

        def f(th, da, db):
            z = da if last or da < db else db
            k2 = db * (2 * a - db) if last else (a - th) * (a + th)
            return math.sqrt(max(k2, 0)) * th * math.log(2 * abs(math.sin(z / 2)) or 1e-300)
        s += quad(f, lo, hi)
    for lo, hi in ((0, 3), (3, 12), (12, 60)):
        s += quad(lambda e, da, db: math.sqrt(e * e + a * a) * e * log_b(e), lo, hi)
    return s


@functools.lru_cache(None)
def zeta(s):
    n = 40
    r = sum(k ** -float(s) for k in range(1, n))
    return r + n ** (1.0 - s) / (s - 1) + 0.5 * n ** -float(s) + s / 12 * n ** (-s - 1.0) - s * (s + 1) * (s + 2) / 720 * n ** (-s - 3.0)


def dfact(n):
    return 1.0 if n <= 0 else n * dfact(n - 2)


GE = 0.5772156649015328606


def low(boson, x, n, d):
    """Expansion for small arguments, eqs. (2.37) and (2.38) of the manual."""
    K = lambda l: dfact(2 * l - 3) * zeta(2 * l - 1) / (dfact(2 * l) * (l + 1)) * (1 if boson else 2 ** (2 * l - 1) - 1)
    P = math.pi
    c = 1.5 + 2 * math.log(4 * P) - 2 * GE - (0 if boson else 2 * math.log(4))
    lg = math.log(x) if x > 0 else 0
    sg = -1 if boson else 1
    # sum_l (-x/4pi^2)^l K_l times x
    S = sum((-1 / (4 * P * P)) ** l * x ** (l + 1) * K(l) for l in range(2, n + 1))
    dS = sum((-1 / (4 * P * P)) ** l * (l + 1) * x ** l * K(l) for l in range(2, n + 1))
    if d == 0:
        r = (-P ** 4 / 45 + P * P / 12 * x - P / 6 * x ** 1.5) if boson else (-7 * P ** 4 / 360 + P * P / 24 * x)
        return r + sg * x * x / 32 * (lg - c) - sg * P * P * S
    r = (P * P / 12 - P / 4 * math.sqrt(x)) if boson else P * P / 24
    return r + sg * (x / 16 * (lg - c) + x / 32) - sg * P * P * dS


def high(x, n, d):
    """Expansion for large arguments, eq. (2.41) of the manual."""
    q = math.sqrt(x)
    s = ds = 0.0
    for l in range(n + 1):
        k = math.gamma(2.5 + l) / math.gamma(2.5 - l) / (2 ** l * math.factorial(l))
        p = 0.75 - l / 2
        s += k * x ** p
        ds += k * x ** p * (p / x - 0.5 / q)
    return -math.exp(-q) * math.sqrt(math.pi / 2) * (s if d == 0 else ds)
