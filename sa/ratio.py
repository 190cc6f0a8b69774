"""Exact arithmetic on rational functions over atoms, to compare floating-point
expressions as expressions over the reals."""
import math
import random
import struct
from fractions import Fraction
from .values import *
from .lin import *


class Unsure(Exception):
    pass


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        c2 = r.get(m, 0) + k * c
        if c2:
            r[m] = c2
        else:
            r.pop(m, None)
    return r


def mmul(m, n):
    d = dict(m)
    for a, p in n:
        d[a] = d.get(a, 0) + p
    return tuple(sorted(d.items(), key=repr))


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def const(c):
    c = Fraction(c)
    return {(): c} if c else {}


def freeze(p):
    return tuple(sorted(p.items(), key=repr))


class R:
    """a quotient of polynomials"""
    __slots__ = ('n', 'd')

    def __init__(self, n, d=None):
        self.n, self.d = n, d if d is not None else const(1)
        if len(self.d) == 1 and () in self.d and self.d[()] != 1:
            k = self.d[()]
            self.n, self.d = {m: c / k for m, c in self.n.items()}, const(1)

    @staticmethod
    def of(x):
        return x if isinstance(x, R) else R(const(x))

    def __add__(self, o):
        o = R.of(o)
        if self.d == o.d:
            return R(padd(self.n, o.n), self.d)
        return R(padd(pmul(self.n, o.d), pmul(o.n, self.d)), pmul(self.d, o.d))

    def __neg__(self):
        return R({m: -c for m, c in self.n.items()}, self.d)

    def __sub__(self, o):
        return self + -R.of(o)

    def __mul__(self, o):
        o = R.of(o)
        return R(pmul(self.n, o.n), pmul(self.d, o.d))

    def __truediv__(self, o):
        o = R.of(o)
        if not o.n:
            raise Unsure('division by zero')
        return R(pmul(self.n, o.d), pmul(self.d, o.n))

    __radd__ = __add__

    def __rmul__(self, o):
        return self * o

    def __rsub__(self, o):
        return R.of(o) - self

    def key(self):
        return (freeze(self.n), freeze(self.d))

    def __repr__(self):
        def p(q):
            return ' + '.join(('' if c == 1 and m else str(c)) + '*'.join('%s%s' % (show(a), '^%d' % k if k > 1 else '') for a, k in m) for m, c in sorted(q.items(), key=repr)) or '0'
        return p(self.n) if self.d == const(1) else '(%s)/(%s)' % (p(self.n), p(self.d))


def show(a):
    return a[1] if a[0] == 's' else '%s(..)' % a[1]


def sym(n):
    return R({((('s', n), 1),): Fraction(1)})


def fn(name, *args):
    return R({((('f', name) + tuple(R.of(a).key() for a in args), 1),): Fraction(1)})


def simplify(p, rules):
    """rules(atom, power) -> R replacing atom^power, or None"""
    for _ in range(200):
        hit = None
        for m in p:
            for a, k in m:
                r = rules(a, k)
                if r is not None:
                    hit = (m, a, k, r)
                    break
            if hit:
                break
        if not hit:
            return p
        m, a, k, r = hit
        c = p[m]
        rest = tuple(x for x in m if x[0] != a)
        q = dict(p)
        del q[m]
        # (c * rest * r.n / r.d) + q, scaled by r.d (a factor of an expression compared with zero)
        p = padd(pmul(pmul({rest: c}, r.n), const(1)), pmul(q, r.d))
    raise Unsure('simplification does not end')


def equal(a, b, rules=None):
    p = (R.of(a) - R.of(b)).n
    if rules:
        p = simplify(p, rules)
    return not p


def has_quot(p):
    """some atom has a quotient as its argument, whose form is not unique"""
    one = freeze(const(1))
    for m in p:
        for a, k in m:
            if a[0] == 'f':
                for n, d in a[2:]:
                    if d != one or has_quot(dict(n)):
                        return True
    return False


def ratio(v, st=None):
    """the expression a value stands for"""
    if isinstance(v, Flt):
        if v.v != v.v or v.v in (float('inf'), float('-inf')):
            raise Unsure('not a real number')
        return R(const(Fraction(v.v)))
    if isinstance(v, Lin):
        if v.is_const():
            return R(const(v.c))
        raise Unsure('an integer')
    if isinstance(v, Term):
        if v.src in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a, b = ratio(v.args[0]), ratio(v.args[1])
            return {'fadd': lambda: a + b, 'fsub': lambda: a - b, 'fmul': lambda: a * b, 'fdiv': lambda: a / b}[v.src]()
        if v.src == 'fneg':
            return -ratio(v.args[0])
        if v.src == 'fpext':
            return ratio(v.args[0])
        if v.src == 'fptrunc':
            w = v.args[0]
            # narrowing loses nothing of what was a narrow number
            return ratio(w) if isinstance(w, Term) and w.src == 'fpext' else fn('float', ratio(w))
        if not v.args:
            return sym(v.src)
        if v.src.startswith('fn:'):
            return fn(v.src[3:], *[ratio(a) for a in v.args])
        raise Unsure('%s' % v.src)
    raise Unsure('%r' % (v,))


def narrow(x):
    return struct.unpack('f', struct.pack('f', x))[0]


FUN = {'cabs': math.hypot, 'abs': abs, 'pow': math.pow, 'float': narrow}


def value(r, env):
    """the value of an expression at a point"""
    def atom(a):
        if a[0] == 's':
            if a[1] not in env:
                env[a[1]] = 0.0 if env['#'].random() < .2 else env['#'].uniform(-3, 3)
            return env[a[1]]
        args = [value(R(dict(n), dict(d)), env) for n, d in a[2:]]
        f = FUN.get(a[1]) or getattr(math, a[1], None)
        if f is None:
            raise Unsure(a[1])
        return f(*args)

    def poly(p):
        t = 0.0
        for m, c in p.items():
            x = float(c)
            for a, k in m:
                x *= atom(a) ** k
            t += x
        return t
    return poly(r.n) / poly(r.d)


def differ(a, b, facts, samples=6000):
    """two expressions have different values (or the first has none) at a point
    where the facts hold: True, False (equal at every point tried) or None (no
    such point found)"""
    errs = []
    d = sample(facts, lambda env: agree(a, b, env, errs), samples)
    # a small error that is there at (nearly) every point is not one of the evaluation
    if d is False and len(errs) >= 15 and sum(e > 1e-10 for e in errs) >= .9 * len(errs):
        return True
    return d


def agree(a, b, env, errs=None):
    q = value(b, env)
    try:
        p = value(a, env)
    except (ValueError, ZeroDivisionError):
        return False            # outside the domain of a real function
    if errs is not None and max(abs(p), abs(q)) > 1e-3:
        errs.append(abs(p - q) / max(abs(p), abs(q)))
    return abs(p - q) <= 1e-6 * (1 + abs(p) + abs(q))


def defined(a, b, env):
    """the first expression has a value where the second has one"""
    value(b, env)
    try:
        value(a, env)
    except (ValueError, ZeroDivisionError):
        return False
    return True


def sample(facts, good, samples=6000, names=()):
    """some point where the facts hold is not good"""
    rnd = random.Random(7)
    seen = 0

    def eqs():
        for k, x, v in facts:
            if k == 'eq' and v and len(x.n) == 1:
                for m in x.n:
                    if len(m) == 1:
                        a = m[0][0]
                        if a[0] == 's':
                            yield a[1]
                        elif a[1] == 'abs':
                            (n, d), = a[2:]
                            if len(n) == 1 and len(n[0][0]) == 1 and n[0][0][0][0][0] == 's':
                                yield n[0][0][0][0][1]
    zero = list(eqs())
    names = sorted(names)
    for i in range(samples):
        env = {'#': rnd}
        if i < 1 << len(names):     # every choice of parts that are zero
            for j, x in enumerate(names):
                if i >> j & 1:
                    env[x] = 0.0
        for x in zero:
            env[x] = 0.0
        try:
            ok = True
            for k, x, v in facts:
                w = value(x, env)
                if not ((w < 0) == v if k == 'lt' else (abs(w) < 1e-12) == v):
                    ok = False
                    break
            if not ok:
                continue
            if not good(env):
                return True
        except Unsure:
            return None
        except (ValueError, ZeroDivisionError, OverflowError):
            continue
        seen += 1
        if seen >= 25:
            return False
    return False if seen >= 3 else None
