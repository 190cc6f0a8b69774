"""Linear integer expressions and the conjunctive linear-inequality domain.

A constraint set is a convex polyhedron over integer-valued symbols, kept as
normalised inequalities  sum(c_i * s_i) + c >= 0  (gcd-reduced, constant
floored, which is sound and sharper for integers).  Entailment and emptiness
are decided by Fourier-Motzkin projection, the standard operation of the domain.
"""
from math import gcd
from itertools import count

_fresh = count(1)


def reset_names():
    global _fresh
    _fresh = count(1)


def fresh(prefix='s'):
    return '%s#%d' % (prefix, next(_fresh))


class Lin:
    __slots__ = ('t', 'c', '_h')

    def __init__(self, t=(), c=0):
        self.t = t
        self.c = c
        self._h = None

    @staticmethod
    def sym(s, k=1):
        return Lin(((s, k),), 0) if k else Lin((), 0)

    @staticmethod
    def of(d, c=0):
        return Lin(tuple(sorted((s, k) for s, k in d.items() if k)), c)

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.t, self.c))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __ne__(self, o):
        return not self.__eq__(o)

    def is_const(self):
        return not self.t

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.t, self.c + o) if o else self
        if not o.t:
            return Lin(self.t, self.c + o.c) if o.c else self
        if not self.t:
            return Lin(o.t, self.c + o.c) if self.c else o
        d = dict(self.t)
        for s, k in o.t:
            d[s] = d.get(s, 0) + k
        return Lin.of(d, self.c + o.c)

    __radd__ = __add__

    def __neg__(self):
        return Lin(tuple((s, -k) for s, k in self.t), -self.c)

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, k):
        if k == 1:
            return self
        if k == 0:
            return ZERO
        return Lin(tuple((s, c * k) for s, c in self.t), self.c * k)

    __rmul__ = __mul__

    def syms(self):
        return [s for s, _ in self.t]

    def coef(self, s):
        for n, k in self.t:
            if n == s:
                return k
        return 0

    def subst(self, m):
        """m: dict symbol -> Lin"""
        for s, _ in self.t:
            if s in m:
                break
        else:
            return self
        d = {}
        c = self.c
        for s, k in self.t:
            r = m.get(s)
            if r is None:
                d[s] = d.get(s, 0) + k
            else:
                c += k * r.c
                for s2, k2 in r.t:
                    d[s2] = d.get(s2, 0) + k * k2
        return Lin.of(d, c)

    def divides(self, k):
        """self/k when every coefficient is a multiple of k, else None"""
        if self.c % k:
            return None
        for _, c in self.t:
            if c % k:
                return None
        return Lin(tuple((s, c // k) for s, c in self.t), self.c // k)

    def eval(self, m):
        v = self.c
        for s, k in self.t:
            v += k * m.get(s, 0)
        return v

    def __repr__(self):
        if not self.t:
            return str(self.c)
        o = ''
        for s, k in self.t:
            sg = '-' if k < 0 else ('+' if o else '')
            o += sg + ('' if abs(k) == 1 else str(abs(k)) + '*') + s
        if self.c:
            o += '%+d' % self.c
        return o


ZERO = Lin((), 0)
ONE = Lin((), 1)


def L(x):
    if isinstance(x, Lin):
        return x
    if isinstance(x, int):
        return Lin((), x)
    return Lin.sym(x)


def _norm(t, c):
    g = 0
    for _, k in t:
        g = gcd(g, k)
        if g == 1:
            return t, c
    if g > 1:
        t = tuple((s, k // g) for s, k in t)
        c = c // g
    return t, c


_infeas_cache = {}
LIMIT = 3000


def _infeasible(cons):
    """cons: dict vec->c.  True: certainly empty; False: rationally non-empty;
    None: gave up."""
    key = frozenset(cons.items())
    r = _infeas_cache.get(key, 0)
    if r != 0:
        return r
    r = _fm(dict(cons))
    if len(_infeas_cache) > 400000:
        _infeas_cache.clear()
    _infeas_cache[key] = r
    return r


def _fm(cs):
    while True:
        pos = {}
        neg = {}
        for t in cs:
            for s, k in t:
                if k > 0:
                    pos[s] = pos.get(s, 0) + 1
                else:
                    neg[s] = neg.get(s, 0) + 1
        if not pos and not neg:
            return False
        best = None
        bc = None
        for s in set(pos) | set(neg):
            p = pos.get(s, 0)
            n = neg.get(s, 0)
            cost = p * n - p - n
            if best is None or (cost, s) < bc:
                best = s
                bc = (cost, s)
        s = best
        P = []
        N = []
        out = {}
        for t, c in cs.items():
            k = 0
            for n, kk in t:
                if n == s:
                    k = kk
                    break
            if k > 0:
                P.append((t, c, k))
            elif k < 0:
                N.append((t, c, -k))
            else:
                out[t] = c
        if len(P) * len(N) > LIMIT:
            return None
        for tp, cp, kp in P:
            for tn, cn, kn in N:
                g = gcd(kp, kn)
                a = kn // g
                b = kp // g
                d = {}
                for n, k in tp:
                    d[n] = k * a
                for n, k in tn:
                    d[n] = d.get(n, 0) + k * b
                c = cp * a + cn * b
                t = tuple(sorted((n, k) for n, k in d.items() if k))
                if not t:
                    if c < 0:
                        return True
                    continue
                t, c = _norm(t, c)
                o = out.get(t)
                if o is None or c < o:
                    out[t] = c
                    # direct contradiction with the opposite row
                    nt = tuple((n, -k) for n, k in t)
                    o = out.get(nt)
                    if o is not None and o + c < 0:
                        return True
        if len(out) > LIMIT:
            return None
        cs = out


class Cons:
    """immutable conjunction of inequalities"""
    __slots__ = ('d', 'bad', '_idx')

    def __init__(self, d=None, bad=False):
        self.d = d if d is not None else {}
        self.bad = bad
        self._idx = None

    def add(self, e):
        """conjoin e >= 0"""
        if self.bad:
            return self
        if not e.t:
            return self if e.c >= 0 else Cons({}, True)
        t, c = _norm(e.t, e.c)
        o = self.d.get(t)
        if o is not None and o <= c:
            return self
        nt = tuple((s, -k) for s, k in t)
        o = self.d.get(nt)
        if o is not None and o + c < 0:
            return Cons({}, True)
        d = dict(self.d)
        d[t] = c
        return Cons(d)

    def items(self):
        return [Lin(t, c) for t, c in self.d.items()]

    def equalities(self):
        out = []
        for t, c in self.d.items():
            if t[0][1] > 0:
                nt = tuple((s, -k) for s, k in t)
                o = self.d.get(nt)
                if o is not None and o + c == 0:
                    out.append(Lin(t, c))
        return out

    def subst(self, m):
        r = Cons()
        for t, c in self.d.items():
            r = r.add(Lin(t, c).subst(m))
            if r.bad:
                return r
        return r

    def _relevant(self, syms):
        if self._idx is None:
            idx = {}
            for t in self.d:
                for s, _ in t:
                    idx.setdefault(s, []).append(t)
            self._idx = idx
        idx = self._idx
        seen = set()
        out = {}
        todo = list(syms)
        while todo:
            s = todo.pop()
            if s in seen:
                continue
            seen.add(s)
            for t in idx.get(s, ()):
                if t not in out:
                    out[t] = self.d[t]
                    for s2, _ in t:
                        if s2 not in seen:
                            todo.append(s2)
        return out

    def sat_with(self, *es):
        """False: certainly empty with e>=0 for all es; True: rationally
        non-empty; None: unknown"""
        if self.bad:
            return False
        syms = []
        add = {}
        for e in es:
            if not e.t:
                if e.c < 0:
                    return False
                continue
            t, c = _norm(e.t, e.c)
            o = add.get(t)
            add[t] = c if o is None else min(o, c)
            syms += [s for s, _ in t]
        if not syms:
            return self.feasible()
        rel = dict(self._relevant(syms))
        for t, c in add.items():
            o = rel.get(t)
            if o is None or c < o:
                rel[t] = c
            nt = tuple((s, -k) for s, k in t)
            o = rel.get(nt)
            if o is not None and o + c < 0:
                return False
        r = _infeasible(rel)
        return None if r is None else (not r)

    def feasible(self):
        if self.bad:
            return False
        if not self.d:
            return True
        r = _infeasible(self.d)
        return None if r is None else (not r)

    def entails(self, e):
        """e >= 0 on every point"""
        if self.bad:
            return True
        if not e.t:
            return e.c >= 0
        t, c = _norm(e.t, e.c)
        o = self.d.get(t)
        if o is not None and o <= c:
            return True
        return self.sat_with(-e - 1) is False

    def entails_eq(self, e):
        if not e.t:
            return e.c == 0
        return self.entails(e) and self.entails(-e)

    def model(self, extra=(), prefer=None):
        """an integer point, or None if none was found"""
        cs = self
        for e in extra:
            cs = cs.add(e)
        if cs.bad or cs.feasible() is False:
            return None
        return _model(dict(cs.d))

    def __repr__(self):
        return ' & '.join('%r>=0' % e for e in sorted(self.items(), key=repr))


def _bounds(cs, s, m):
    lo = hi = None
    for t, c in cs.items():
        k = 0
        v = c
        for n, kk in t:
            if n == s:
                k = kk
            elif n in m:
                v += kk * m[n]
            else:
                break
        else:
            if k > 0:
                b = -(v // k)  # s >= ceil(-v/k)
                lo = b if lo is None else max(lo, b)
            elif k < 0:
                b = v // (-k)
                hi = b if hi is None else min(hi, b)
    return lo, hi


def _model(cs, budget=[0]):
    # eliminate symbols one at a time remembering the systems, then rebuild
    syms = sorted({s for t in cs for s, _ in t})
    stack = []
    cur = cs
    order = []
    while True:
        ss = {s for t in cur for s, _ in t}
        if not ss:
            break
        best = None
        for s in sorted(ss):
            p = sum(1 for t in cur for n, k in t if n == s and k > 0)
            n_ = sum(1 for t in cur for n, k in t if n == s and k < 0)
            if best is None or p * n_ < best[0]:
                best = (p * n_, s)
        s = best[1]
        if best[0] > LIMIT:
            return None
        stack.append((s, cur))
        P, N, out = [], [], {}
        for t, c in cur.items():
            k = dict(t).get(s, 0)
            if k > 0:
                P.append((t, c, k))
            elif k < 0:
                N.append((t, c, -k))
            else:
                out[t] = min(c, out.get(t, c))
        for tp, cp, kp in P:
            for tn, cn, kn in N:
                g = gcd(kp, kn)
                a, b = kn // g, kp // g
                d = {}
                for n, k in tp:
                    d[n] = k * a
                for n, k in tn:
                    d[n] = d.get(n, 0) + k * b
                c = cp * a + cn * b
                t = tuple(sorted((n, k) for n, k in d.items() if k))
                if not t:
                    if c < 0:
                        return None
                    continue
                t, c = _norm(t, c)
                if t not in out or c < out[t]:
                    out[t] = c
        cur = out
    stack.reverse()
    tries = [0]

    def rec(i, m):
        tries[0] += 1
        if tries[0] > 4000:
            return None
        if i == len(stack):
            for t, c in cs.items():
                v = c
                for n, k in t:
                    v += k * m.get(n, 0)
                if v < 0:
                    return None
            return m
        s, sysm = stack[i]
        lo, hi = _bounds(sysm, s, m)
        if lo is not None and hi is not None and lo > hi:
            return None
        cand = []
        base = lo if lo is not None else (hi if hi is not None else 0)
        if lo is not None:
            for v in (lo, lo + 1, lo + 2, lo + 3):
                cand.append(v)
        if hi is not None:
            for v in (hi, hi - 1, hi - 2):
                cand.append(v)
        if lo is None and hi is None:
            cand = [0, 1, 2, 3]
        seen = set()
        for v in cand:
            if v in seen or (lo is not None and v < lo) or (hi is not None and v > hi):
                continue
            seen.add(v)
            m2 = dict(m)
            m2[s] = v
            r = rec(i + 1, m2)
            if r is not None:
                return r
        return None
    return rec(0, {})
