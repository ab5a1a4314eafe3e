"""The small part of Sage that sage-impl/verify.sage needs, in plain Python (Sage is not installed here).

Written from Sage's documentation; anything else the script may ask for raises Unsupported, which the runner reports as "no statement".
Semantics follow the mathematics (points, isogenies, pairings are exact); only running times differ.
"""
import functools, hashlib, os, random, re, sys, types, warnings


class Unsupported(BaseException):
    pass


class Strict:
    def __getattr__(self, name):
        if name.startswith("__"): raise AttributeError(name)
        raise Unsupported("%s.%s" % (type(self).__name__, name))


# ---------------------------------------------------------------- integers
class Integer(int):
    def _w(f):
        def g(self, o):
            r = f(int(self), int(o)) if isinstance(o, int) else NotImplemented
            return Integer(r) if isinstance(r, int) and r is not NotImplemented else r
        return g
    __add__ = __radd__ = _w(lambda a, b: a + b)
    __mul__ = _w(lambda a, b: a * b)
    __rmul__ = _w(lambda a, b: a * b)
    __sub__ = _w(lambda a, b: a - b)
    __rsub__ = _w(lambda a, b: b - a)
    __floordiv__ = _w(lambda a, b: a // b)
    __rfloordiv__ = _w(lambda a, b: b // a)
    __mod__ = _w(lambda a, b: a % b)
    __pow__ = _w(lambda a, b: a ** b)
    __rpow__ = _w(lambda a, b: b ** a)
    __neg__ = lambda self: Integer(-int(self))
    def __truediv__(self, o):
        if isinstance(o, int):
            if int(self) % int(o): raise Unsupported("rational numbers")
            return Integer(int(self) // int(o))
        return NotImplemented
    def prime_factors(self):
        n, out, d = abs(int(self)), [], 2
        while d * d <= n and d < 10000:
            if n % d == 0:
                out.append(Integer(d))
                while n % d == 0: n //= d
            d += 1
        if n > 1:
            if n > 10 ** 8: raise Unsupported("factoring")
            out.append(Integer(n))
        return out
    prime_divisors = prime_factors
    def is_zero(self): return int(self) == 0
    def nbits(self): return Integer(int(self).bit_length())
    def valuation(self, l):
        n, v = int(self), 0
        while n and n % l == 0: n //= int(l); v += 1
        return Integer(v)
    def bits(self): return [Integer(int(b)) for b in bin(int(self))[:1:-1]]
    def __hash__(self): return hash(int(self))
    def __eq__(self, o): return int(self) == o if isinstance(o, int) else NotImplemented
    def __ne__(self, o): return int(self) != o if isinstance(o, int) else NotImplemented


class RingElement(Strict):
    pass


# ---------------------------------------------------------------- GF(p^2) = GF(p)[i]/(i^2+1)
class Field(Strict):
    cache = {}
    def __init__(self, p):
        self.p = p; self.q = p * p
    def gen(self): return El(self, 0, 1)
    def one(self): return El(self, 1, 0)
    def zero(self): return El(self, 0, 0)
    def characteristic(self): return Integer(self.p)
    def cardinality(self): return Integer(self.q)
    order = cardinality
    def degree(self): return Integer(2)
    def base_ring(self): return self
    def random_element(self): return El(self, random.randrange(self.p), random.randrange(self.p))
    def __call__(self, v):
        if isinstance(v, El): return v
        if isinstance(v, int): return El(self, int(v) % self.p, 0)
        if isinstance(v, (list, tuple)) and len(v) <= 2: return El(self, int((list(v) + [0, 0])[0]) % self.p, int((list(v) + [0, 0])[1]) % self.p)
        raise Unsupported("field conversion of %r" % type(v))
    def __eq__(self, o): return isinstance(o, Field) and o.p == self.p
    def __hash__(self): return hash(self.p)


def GF(order, name=None, modulus=None, **kw):
    if isinstance(order, tuple): p, n = map(int, order)
    else:
        p = int(order); n = 1
        import math
        r = math.isqrt(p)
        if r * r == p: p, n = r, 2
    if n != 2 or list(modulus or []) != [1, 0, 1] or kw or p % 4 != 3: raise Unsupported("GF%r" % (order,))
    if p not in Field.cache: Field.cache[p] = Field(p)
    return Field.cache[p]


class El(RingElement):
    __slots__ = ("F", "a", "b")
    def __init__(self, F, a, b): self.F = F; self.a = a; self.b = b
    def _c(self, o): return o if isinstance(o, El) else El(self.F, int(o) % self.F.p, 0) if isinstance(o, int) else None
    def parent(self): return self.F
    base_ring = parent
    def __add__(self, o):
        o = self._c(o)
        if o is None: return NotImplemented
        p = self.F.p; return El(self.F, (self.a + o.a) % p, (self.b + o.b) % p)
    __radd__ = __add__
    def __sub__(self, o):
        o = self._c(o)
        if o is None: return NotImplemented
        p = self.F.p; return El(self.F, (self.a - o.a) % p, (self.b - o.b) % p)
    def __rsub__(self, o): return self._c(o) - self
    def __neg__(self): p = self.F.p; return El(self.F, -self.a % p, -self.b % p)
    def __mul__(self, o):
        o = self._c(o)
        if o is None: return NotImplemented
        p = self.F.p; x = self.a * o.a; y = self.b * o.b
        return El(self.F, (x - y) % p, ((self.a + self.b) * (o.a + o.b) - x - y) % p)
    __rmul__ = __mul__
    def inverse(self):
        if not self: raise ZeroDivisionError("inverse of zero in GF(p^2)")
        p = self.F.p; n = pow(self.a * self.a + self.b * self.b, -1, p); return El(self.F, self.a * n % p, -self.b * n % p)
    __invert__ = inverse
    def __truediv__(self, o):
        o = self._c(o)
        return NotImplemented if o is None else self * o.inverse()
    def __rtruediv__(self, o): return self._c(o) * self.inverse()
    def __pow__(self, n):
        n = int(n); b = self
        if n < 0: b, n = self.inverse(), -n
        r = self.F.one()
        for c in bin(n)[2:] if n else "":
            r = r * r
            if c == "1": r = r * b
        return r
    def __eq__(self, o):
        o = self._c(o)
        return NotImplemented if o is None else self.a == o.a and self.b == o.b
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash((self.a, self.b))
    def __bool__(self): return bool(self.a or self.b)
    def is_zero(self): return not self
    def is_one(self): return self.a == 1 and not self.b
    def __iter__(self): return iter((Integer(self.a), Integer(self.b)))
    def __getitem__(self, k): return Integer((self.a, self.b)[int(k)])
    def __len__(self): return 2
    def list(self): return [Integer(self.a), Integer(self.b)]
    polynomial_coefficients = list
    def real(self): raise Unsupported("real")
    def is_square(self):
        p = self.F.p; n = (self.a * self.a + self.b * self.b) % p; return n == 0 or pow(n, (p - 1) // 2, p) == 1
    def sqrt(self, *a, **k):
        if a or k: raise Unsupported("sqrt options")
        r = self._sqrt()
        if r is None: raise Unsupported("square root in an extension")
        return r
    square_root = sqrt
    def _sqrt(self):
        p, F = self.F.p, self.F
        if not self: return self
        if not self.is_square(): return None
        if not self.b:
            s = pow(self.a, (p + 1) // 4, p)
            return El(F, s, 0) if s * s % p == self.a else El(F, 0, s)
        n = pow((self.a * self.a + self.b * self.b) % p, (p + 1) // 4, p); h = pow(2, -1, p)
        for d in (n, -n):
            x2 = (self.a + d) * h % p; x = pow(x2, (p + 1) // 4, p)
            if x and x * x % p == x2:
                r = El(F, x, self.b * h * pow(x, -1, p) % p)
                if r * r == self: return r
        return None
    def __repr__(self): return "%d*i + %d" % (self.b, self.a)


# ---------------------------------------------------------------- polynomials and rational functions in one variable
def ptrim(f):
    while f and not f[-1]: f.pop()
    return f
def padd(f, g): n = max(len(f), len(g)); z = (f or g)[0].F.zero() if f or g else None; return ptrim([(f[i] if i < len(f) else z) + (g[i] if i < len(g) else z) for i in range(n)])
def pneg(f): return [-c for c in f]
def pmul(f, g):
    if not f or not g: return []
    r = [f[0].F.zero() for _ in range(len(f) + len(g) - 1)]
    for i, a in enumerate(f):
        if a:
            for j, b in enumerate(g):
                if b: r[i + j] = r[i + j] + a * b
    return ptrim(r)
def pdivmod(f, g):
    f = list(f); inv = g[-1].inverse(); q = [g[0].F.zero()] * max(0, len(f) - len(g) + 1)
    while len(f) >= len(g):
        c = f[-1] * inv; s = len(f) - len(g); q[s] = c
        for i, b in enumerate(g): f[s + i] = f[s + i] - c * b
        f.pop(); ptrim(f)
    return ptrim(q), f
def pgcd(f, g):
    while g: f, g = g, pdivmod(f, g)[1]
    return pmonic(f)
def pmonic(f):
    if not f: return f
    i = f[-1].inverse(); return [c * i for c in f]
def ppow(b, n, m):
    r = [m[0].F.one()]
    for c in bin(n)[2:]:
        r = pdivmod(pmul(r, r), m)[1]
        if c == "1": r = pdivmod(pmul(r, b), m)[1]
    return r
MEMO = {}
def memo(key, f):
    """pure computations are remembered: generated full-length proofs repeat their chains"""
    if key not in MEMO: MEMO[key] = f()
    return MEMO[key]
def proots(f):
    """distinct roots in the field"""
    f = pmonic(ptrim(list(f)))
    return list(memo(("roots",) + tuple(f), lambda: proots1(f)))
def proots1(f):
    if len(f) <= 1: return []
    F = f[0].F; one = F.one()
    if not f[0]: return [F.zero()] + [r for r in proots(f[1:]) if r]
    if len(f) == 2: return [-f[0]]
    if len(f) == 3:
        d = (f[1] * f[1] - 4 * f[0])._sqrt()
        if d is None: return []
        h = F(2).inverse(); return [(-f[1] + d) * h] + ([(-f[1] - d) * h] if d else [])
    if not any(f[1::2]):                      # a polynomial in x^2
        out = []
        for r in proots(f[::2]):
            s = r._sqrt()
            if s is not None: out += [s, -s]
        return out
    x = [F.zero(), one]; g = pgcd(f, padd(ppow(x, F.q, f), pneg(x)))
    out, todo = [], [g]
    while todo:
        g = todo.pop()
        if len(g) <= 3: out += proots(g); continue
        while True:
            h = pgcd(g, padd(ppow([F.random_element(), one], (F.q - 1) // 2, g), [-one]))
            if 1 < len(h) < len(g): break
        todo += [h, pdivmod(g, h)[0]]
    return out


class Poly(RingElement):
    def __init__(self, c): self.c = ptrim(list(c))
    def roots(self, multiplicities=True, **kw):
        if kw or multiplicities: raise Unsupported("roots with multiplicities")
        return proots(self.c)
    def degree(self): return Integer(len(self.c) - 1)


class Rat(RingElement):
    """element of a rational function field, in lowest terms"""
    def __init__(self, F, n, d): g = pgcd(list(n), list(d)) if n else None; self.F = F; self.n, self.d = (pdivmod(n, g)[0], pdivmod(d, g)[0]) if g and len(g) > 1 else (list(n), list(d))
    def _c(self, o):
        if isinstance(o, Rat): return o
        if isinstance(o, int): o = self.F(o)
        if isinstance(o, El): return Rat(self.F, [o] if o else [], [self.F.one()])
        return None
    def __add__(self, o): o = self._c(o); return NotImplemented if o is None else Rat(self.F, padd(pmul(self.n, o.d), pmul(o.n, self.d)), pmul(self.d, o.d))
    __radd__ = __add__
    def __neg__(self): return Rat(self.F, pneg(self.n), self.d)
    def __sub__(self, o): o = self._c(o); return NotImplemented if o is None else self + (-o)
    def __rsub__(self, o): return self._c(o) - self
    def __mul__(self, o): o = self._c(o); return NotImplemented if o is None else Rat(self.F, pmul(self.n, o.n), pmul(self.d, o.d))
    __rmul__ = __mul__
    def __truediv__(self, o):
        o = self._c(o)
        if o is None: return NotImplemented
        if not o.n: raise ZeroDivisionError
        return Rat(self.F, pmul(self.n, o.d), pmul(self.d, o.n))
    def __rtruediv__(self, o): return self._c(o) / self
    def __pow__(self, k):
        r = self._c(1)
        for _ in range(int(k)): r = r * self
        return r
    def __bool__(self): return bool(self.n)
    def parent(self): return RatField(self.F)
    def numerator(self): return Poly(self.n)
    def denominator(self): return Poly(self.d)


class RatField(Strict):
    def __init__(self, F): self.F = F
    def gen(self): return Rat(self.F, [self.F.zero(), self.F.one()], [self.F.one()])
    def characteristic(self): return self.F.characteristic()
    def __call__(self, v): return self.gen()._c(v)
def FunctionField(F, *a, **k):
    if not isinstance(F, Field) or a or k: raise Unsupported("FunctionField")
    return RatField(F)
PolynomialRing = lambda *a, **k: (_ for _ in ()).throw(Unsupported("PolynomialRing"))


# ---------------------------------------------------------------- elliptic curves y^2 = x^3 + a2 x^2 + a4 x + a6
class Curve(Strict):
    checked = {}
    def __init__(self, a2, a4, a6): self.a2, self.a4, self.a6 = a2, a4, a6; self.F = a2.F; self.known = None
    def base_field(self): return self.F if isinstance(self.a2, El) else RatField(self.F)
    base_ring = base_field
    def a_invariants(self): z = self.a2 - self.a2; return (z, self.a2, z, self.a4, self.a6)
    def a_invariants_(self): return self.a_invariants()
    ainvs = a_invariants
    def _b(self):
        b2 = 4 * self.a2; b4 = 2 * self.a4; b6 = 4 * self.a6; b8 = b2 * self.a6 - self.a4 * self.a4
        return b2, b4, b6, b8
    def discriminant(self): b2, b4, b6, b8 = self._b(); return -b2 * b2 * b8 - 8 * b4 * b4 * b4 - 27 * b6 * b6 + 9 * b2 * b4 * b6
    def j_invariant(self): return memo(("j", self), self._j) if isinstance(self.a2, El) else self._j()
    def _j(self): b2, b4, _, __ = self._b(); c4 = b2 * b2 - 24 * b4; return c4 * c4 * c4 / self.discriminant()
    def _rhs(self, x): return ((x + self.a2) * x + self.a4) * x + self.a6
    def __eq__(self, o): return isinstance(o, Curve) and (self.a2, self.a4, self.a6) == (o.a2, o.a4, o.a6)
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash((self.a2, self.a4, self.a6))
    def set_order(self, n, **kw):
        if set(kw) - {"check", "num_checks"}: raise Unsupported("set_order options")
        key = (self, int(n))
        if kw.get("check", True) and not Curve.checked.get(key):
            for _ in range(1):                                    # (Sage: a number of random points)
                if int(n) * self.random_point(): raise ValueError("Value %s illegal (multiple of random point not the identity)" % n)
            Curve.checked[key] = True
        self.known = int(n)
    def order(self):
        if self.known is None: raise Unsupported("point counting")
        return Integer(self.known)
    cardinality = order
    def random_point(self):
        while True:
            x = self.F.random_element(); y = self._rhs(x)._sqrt()
            if y is not None: return Point(self, x, y if random.random() < .5 else -y)
    random_element = random_point
    def __call__(self, *v):
        if len(v) == 1: v = v[0]
        if isinstance(v, int) and v == 0: return Point(self, None, None)
        if isinstance(v, Point) and v.E == self: return v
        if isinstance(v, (list, tuple)) and len(v) == 2:
            x, y = map(self.F, v)
            if y * y != self._rhs(x): raise TypeError("not a point on the curve")
            return Point(self, x, y)
        raise Unsupported("point construction")
    def zero(self): return Point(self, None, None)
    def lift_x(self, x, **kw):
        if kw: raise Unsupported("lift_x options")
        x = self.F(x); y = self._rhs(x)._sqrt()
        if y is None: raise ValueError("No point with x-coordinate %s on the curve" % (x,))
        return Point(self, x, y)
    def is_x_coord(self, x): return self._rhs(self.F(x)).is_square()
    def _torsion(self, l):
        if l == 2: return [Point(self, x, self.F.zero()) for x in proots([self.a6, self.a4, self.a2, self.F.one()])]
        if l == 3:
            b2, b4, b6, b8 = self._b(); out = []
            for x in proots([b8, 3 * b6, 3 * b4, b2, self.F(3)]):
                y = self._rhs(x)._sqrt()
                if y is not None: out += [Point(self, x, y), Point(self, x, -y)]
            return out
        raise Unsupported("%d-torsion" % l)
    def isogeny(self, K, algorithm=None, **kw):
        if kw or algorithm not in (None, "factored") or not isinstance(K, Point): raise Unsupported("isogeny options")
        if K.E != self: raise ValueError("kernel point is not on the curve")
        return memo(("isogeny", self, K.X, K.Y), lambda: factored(self, K))
    def isomorphism_to(self, o): return memo(("iso", self, o), lambda: self._iso_to(o))
    def _iso_to(self, o):
        for u2, r in self._isos(o):
            u = u2._sqrt()
            if u is not None: return Iso(self, o, u, r)
        raise ValueError("Elliptic curves not isomorphic.")
    def is_isomorphic(self, o): return any(u2.is_square() for u2, r in self._isos(o))
    def _isos(self, o):
        """all (u^2, r) with x = u^2 x' + r"""
        b2, b4, b6, _ = self._b(); B2, B4, B6, _ = o._b(); c4 = b2 * b2 - 24 * b4; c6 = -b2 * b2 * b2 + 36 * b2 * b4 - 216 * b6; C4 = B2 * B2 - 24 * B4; C6 = -B2 * B2 * B2 + 36 * B2 * B4 - 216 * B6
        if self.j_invariant() != o.j_invariant(): return []
        if not c4: s = proots([-(c6 / C6), self.F.zero(), self.F.zero(), self.F.one()])
        elif not c6: s = proots([-(c4 / C4), self.F.zero(), self.F.one()])
        else: s = [(c6 / C6) / (c4 / C4)]
        return [(v, (v * o.a2 - self.a2) / 3) for v in s]


def EllipticCurve(c):
    if not isinstance(c, (list, tuple)) or len(c) not in (2, 5): raise Unsupported("EllipticCurve")
    c = list(c) if len(c) == 5 else [0, 0, 0] + list(c)
    el = next((v for v in c if isinstance(v, Rat)), None) or next((v for v in c if isinstance(v, El)), None)
    if el is None or not all(isinstance(v, (int, El, Rat)) for v in c): raise Unsupported("EllipticCurve")
    z = el - el; c = [z + v for v in c]
    if c[0] or c[2]: raise Unsupported("general Weierstrass form")
    E = Curve(c[1], c[3], c[4])
    if not E.discriminant(): raise ArithmeticError("invariants define a singular curve")
    return E


class Point(Strict):
    __slots__ = ("E", "X", "Y")
    def __init__(self, E, x, y): self.E = E; self.X = x; self.Y = y
    def curve(self): return self.E
    def __bool__(self): return self.X is not None
    def is_zero(self): return self.X is None
    def x(self): return self.xy()[0]
    def y(self): return self.xy()[1]
    def xy(self):
        if self.X is None: raise ZeroDivisionError("the point at infinity has no affine coordinates")
        return self.X, self.Y
    def __eq__(self, o):
        if isinstance(o, int) and o == 0: return self.X is None
        return isinstance(o, Point) and self.E == o.E and ((self.X is None) == (o.X is None)) and (self.X is None or (self.X == o.X and self.Y == o.Y))
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash((self.X, self.Y))
    def __neg__(self): return self if self.X is None else Point(self.E, self.X, -self.Y)
    def __add__(self, o):
        if not isinstance(o, Point): return NotImplemented
        if self.X is None: return o
        if o.X is None: return self
        E = self.E
        if self.X == o.X:
            if self.Y != o.Y or not self.Y: return Point(E, None, None)
            m = ((3 * self.X + 2 * E.a2) * self.X + E.a4) / (self.Y + self.Y)
        else: m = (o.Y - self.Y) / (o.X - self.X)
        x = m * m - E.a2 - self.X - o.X; return Point(E, x, m * (self.X - x) - self.Y)
    def __sub__(self, o): return self + (-o)
    def __rmul__(self, n):
        if not isinstance(n, int): return NotImplemented
        n = int(n)
        return memo(("mul", self.E, self.X, self.Y, n), lambda: self._mul(n)) if n > 1 << 20 else self._mul(n)
    def _mul(self, n):
        P = self
        if n < 0: P, n = -self, -n
        R = Point(self.E, None, None)
        if n and n == n & -n:                                      # power of two
            R = P
            for _ in range(n.bit_length() - 1): R = R + R
            return R
        while n and n % 3 == 0:                                    # small factors first: fewer operations
            P = P + P + P; n //= 3
        for c in bin(n)[2:] if n else "":
            R = R + R
            if c == "1": R = R + P
        return R
    __mul__ = __rmul__
    def division_points(self, l):
        if self.X is not None: raise Unsupported("division points of a non-zero point")
        return [self] + list(memo(("torsion", self.E, int(l)), lambda: self.E._torsion(int(l))))
    def weil_pairing(self, Q, n):
        n = int(n)
        if n * self or n * Q: raise ValueError("points must both be n-torsion")
        if n not in (2, 3): raise Unsupported("pairing of order %d" % n)
        R = Point(self.E, None, None); F = self.E.F
        for k in range(n):
            if R == Q: return F.one()
            R = R + self
        if not self: return F.one()
        return -F.one() if n == 2 else (F(-3)._sqrt() - 1) / 2      # (some primitive root of unity)
    def order(self):
        n = int(self.E.order()); m = n
        for l in Integer(n).prime_factors():
            while m % l == 0 and not (m // int(l)) * self: m //= int(l)
        return Integer(m)


# ---------------------------------------------------------------- isogenies
class Hom(Strict):
    def __init__(self, E, F): self.E, self.Fc = E, F
    def domain(self): return self.E
    def codomain(self): return self.Fc
    def __mul__(self, o):                                          # self after o
        if not isinstance(o, Hom): return NotImplemented
        if o.Fc != self.E: raise ValueError("homomorphisms do not compose")
        return memo(("compose", id(self), id(o)), lambda: (Composite(o.parts() + self.parts()), self, o))[0]
    def parts(self): return [self]
    def __call__(self, P):
        if not isinstance(P, Point) or P.E != self.E: raise TypeError("not a point on the domain")
        return self.ev(P)


class Velu(Hom):
    """2- or 3-isogeny with kernel generated by K"""
    def __init__(self, K, l):
        E = K.E; x, y = K.X, K.Y; self.l, self.xK = l, x
        g = (3 * x + 2 * E.a2) * x + E.a4
        if l == 2: self.t, self.u = g, E.F.zero()
        else: self.t, self.u = 2 * g, 4 * y * y
        w = self.u + x * self.t
        Hom.__init__(self, E, Curve(E.a2, E.a4 - 5 * self.t, E.a6 - 4 * E.a2 * self.t - 7 * w))
    def degree(self): return Integer(self.l)
    def ev(self, P):
        if P.X is None: return Point(self.Fc, None, None)
        d = P.X - self.xK
        if not d: return Point(self.Fc, None, None)
        i = d.inverse(); i2 = i * i; a = self.t * i; b = self.u * i2
        return Point(self.Fc, P.X + a + b, P.Y * (1 - a * i - 2 * b * i))


class Iso(Hom):
    def __init__(self, E, F, u, r): Hom.__init__(self, E, F); v = u.inverse(); self.v2, self.v3, self.r = v * v, v * v * v, r
    def degree(self): return Integer(1)
    def ev(self, P): return Point(self.Fc, None, None) if P.X is None else Point(self.Fc, (P.X - self.r) * self.v2, P.Y * self.v3)


class Composite(Hom):
    def __init__(self, parts): self.ps = parts; self.seen = {}; Hom.__init__(self, parts[0].E, parts[-1].Fc)
    def parts(self): return self.ps
    def degree(self): return Integer(functools.reduce(lambda a, b: a * int(b.degree()), self.ps, 1))
    def ev(self, P):
        def run(Q):
            for f in self.ps: Q = f.ev(Q)
            return Q
        k = (P.X, P.Y)
        if k not in self.seen: self.seen[k] = run(P)
        return self.seen[k]


def factored(E, K):
    """isogeny with kernel <K> for K of order 2^i 3^j"""
    parts = []
    def strat(P, l, e):
        # P of order l^e on the current curve: appends e isogenies of degree l
        if e == 1: f = Velu(P, l); parts.append(f); return
        m = e // 2; Q = P
        for _ in range(m): Q = Q + Q if l == 2 else Q + Q + Q
        k = len(parts); strat(Q, l, e - m)
        for f in parts[k:]: P = f.ev(P)
        strat(P, l, m)
    def valuation(P, l):
        n = 0
        while P and n <= 800: P = P + P if l == 2 else P + P + P; n += 1
        return n if not P else None
    todo = None
    for l in sorted((2, 3), key=lambda l: l != factored.last):     # (the kind seen last is tried first)
        n = valuation(K, l)
        if n is not None: todo = [(K, l, n)]; factored.last = l; break
    if todo is None:                                               # both primes occur
        n = E.F.p + 1; a = Integer(n).valuation(2); b = Integer(n).valuation(3); K2, K3 = 3 ** int(b) * K, 2 ** int(a) * K
        v2, v3 = valuation(K2, 2), valuation(K3, 3)
        if v2 is None or v3 is None: raise Unsupported("isogeny of other degrees")
        strat(K2, 2, v2)
        for f in parts: K3 = f.ev(K3)
        todo = [(K3, 3, v3)]
    for P, l, n in todo:
        if n: strat(P, l, n)
    if not parts: parts.append(Iso(E, E, E.F.one(), E.F.zero()))
    return Composite(parts)
factored.last = 2


# ---------------------------------------------------------------- the rest of the environment
class SHAKE:
    def __init__(self): self.h = hashlib.shake_256(); self.pos = 0
    @staticmethod
    def new(data=b""): s = SHAKE(); s.update(data); return s
    def update(self, b):
        if self.pos: raise TypeError("You cannot call 'update' after the first 'read'")
        self.h.update(bytes(b)); return self
    def read(self, n): r = self.h.digest(self.pos + int(n))[self.pos:]; self.pos += int(n); return r


def cached_method(f):
    name = "_cached_" + f.__name__; memo = {}
    @functools.wraps(f)
    def g(self, *a):
        k = (self, a)
        if k not in memo: memo[k] = f(self, *a)
        return memo[k]
    return g
cached_function = functools.lru_cache(maxsize=None)


def parallel(*opts):
    """a function of a list of arguments: (((arg,), {}), result) in any order; an exception in a worker gives 'NO DATA'"""
    def deco(f):
        def run(args):
            args = list(args); random.shuffle(args)
            for a in args:
                t = a if isinstance(a, tuple) else (a,)
                try: r = f(*t)
                except Exception as e:
                    print("worker: %s: %s" % (type(e).__name__, e), file=sys.stderr); r = "NO DATA"
                yield (t, {}), r
        return run
    if len(opts) == 1 and callable(opts[0]): return deco(opts[0])
    return deco


def environment():
    class _P: all = staticmethod(lambda *a: None)
    crypto = types.ModuleType("Crypto"); ch = types.ModuleType("Crypto.Hash"); s = types.ModuleType("Crypto.Hash.SHAKE256"); s.new = SHAKE.new; ch.SHAKE256 = s; crypto.Hash = ch
    sys.modules.update({"Crypto": crypto, "Crypto.Hash": ch, "Crypto.Hash.SHAKE256": s})
    return dict(proof=_P, warnings=warnings, os=os, Integer=Integer, ZZ=Integer, RingElement=RingElement, GF=GF, FiniteField=GF, EllipticCurve=EllipticCurve, FunctionField=FunctionField, parallel=parallel,
                cached_method=cached_method, cached_function=cached_function, parent=lambda e: e.parent(), is_even=lambda n: n % 2 == 0)


# ---------------------------------------------------------------- Sage's preparser (the parts the script uses)
def preparse(src):
    import io, tokenize
    src = re.sub(r"^([ \t]*)(\w+)\.<(\w+)>\s*=\s*(.+)$", r"\1\2 = \4; \3 = \2.gen()", src, flags=re.M)
    out, prev = [], (1, 0)
    lines = src.splitlines(True); res = []
    for t in tokenize.generate_tokens(io.StringIO(src).readline):
        (r0, c0), (r1, c1) = t.start, t.end; gap = ""
        if r0 > prev[0]: gap = "".join([lines[prev[0] - 1][prev[1]:]] + lines[prev[0]:r0 - 1] + [lines[r0 - 1][:c0]]) if prev[0] <= len(lines) and r0 <= len(lines) else ""
        elif r0 <= len(lines): gap = lines[r0 - 1][prev[1]:c0]
        s = t.string
        if t.type == tokenize.OP and s == "^": s = "**"
        elif t.type == tokenize.OP and s == "^=": s = "**="
        elif t.type == tokenize.NUMBER and re.fullmatch(r"[0-9]+|0x[0-9a-fA-F]+", s): s = "Integer(%s)" % s
        if t.type in (tokenize.INDENT, tokenize.DEDENT, tokenize.ENDMARKER): s = "" if t.type != tokenize.INDENT else s
        res.append(gap + s); prev = (r1, c1)
    return "".join(res)
