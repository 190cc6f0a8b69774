"""Abstract values."""
from .lin import Lin, L, ZERO, ONE, fresh

IDX = '@i'      # the index of an array cell inside a segment template
QV = '@q'       # the bound variable of a quantified fact
RV = '@r'       # the bound variable inside an 'all' atom


class Special:
    __slots__ = ('name',)

    def __init__(self, n):
        self.name = n

    def __repr__(self):
        return self.name


RAW = Special('RAW')        # uninitialised / not constructed / destroyed
MOVED = Special('MOVED')    # constructed, value unspecified (moved from)
TOP = Special('TOP')        # unknown


class Ptr:
    __slots__ = ('obj', 'off', 'blk')

    def __init__(self, obj, off=ZERO, blk=None):
        self.obj = obj
        self.off = off
        self.blk = blk

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj == o.obj and self.off == o.off and self.blk == o.blk

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.obj, self.off, self.blk))

    def __repr__(self):
        if self.obj is None:
            return 'null' if self.off == ZERO else 'null+%r' % self.off
        b = '[%r]' % self.blk if self.blk is not None else ''
        return '&%s%s%s' % (self.obj, b, '' if self.off == ZERO else '+%r' % self.off)

    def plus(self, d):
        return Ptr(self.obj, self.off + d, self.blk)


NULL = Ptr(None)


class Fn:
    __slots__ = ('name',)

    def __init__(self, n):
        self.name = n

    def __eq__(self, o):
        return isinstance(o, Fn) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return 'fn:' + self.name


class Term:
    """uninterpreted application src(args); args are Lin or values"""
    __slots__ = ('src', 'args', 'bits', '_h')

    def __init__(self, src, args=(), bits=64):
        self.src = src
        self.args = tuple(args)
        self.bits = bits
        self._h = None

    def __eq__(self, o):
        return isinstance(o, Term) and self.src == o.src and self.args == o.args and self.bits == o.bits

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.src, self.args, self.bits))
        return self._h

    def __repr__(self):
        if not self.args:
            return self.src
        return '%s(%s)' % (self.src, ','.join(map(repr, self.args)))


# conditions: python bool, or tuples
#  ('ge', Lin)  Lin >= 0        ('eq', Lin)  Lin == 0        ('ne', Lin)
#  ('atom', key, bool)          ('and', a, b)   ('or', a, b)  ('top', text)

def cnot(c):
    if isinstance(c, bool):
        return not c
    k = c[0]
    if k == 'ge':
        return ('ge', -c[1] - 1)
    if k == 'eq':
        return ('ne', c[1])
    if k == 'ne':
        return ('eq', c[1])
    if k == 'atom':
        return ('atom', c[1], not c[2])
    if k == 'and':
        return ('or', cnot(c[1]), cnot(c[2]))
    if k == 'or':
        return ('and', cnot(c[1]), cnot(c[2]))
    return c


def cand(a, b):
    if a is True:
        return b
    if b is True:
        return a
    if a is False or b is False:
        return False
    return ('and', a, b)


def cor(a, b):
    return cnot(cand(cnot(a), cnot(b)))


def ge(e):
    if isinstance(e, int):
        return e >= 0
    return (e.c >= 0) if not e.t else ('ge', e)


def eq0(e):
    return (e.c == 0) if not e.t else ('eq', e)


class BInt:
    """an integer that is 1 if cond else 0"""
    __slots__ = ('cond',)

    def __init__(self, c):
        self.cond = c

    def __eq__(self, o):
        return isinstance(o, BInt) and o.cond == self.cond

    def __hash__(self):
        return hash(('b', self.cond))

    def __repr__(self):
        return 'bool(%r)' % (self.cond,)


class Agg:
    """first-class aggregate (struct returned in registers)"""
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = tuple(f)

    def __eq__(self, o):
        return isinstance(o, Agg) and o.f == self.f

    def __hash__(self):
        return hash(self.f)

    def __repr__(self):
        return '{%s}' % ', '.join(map(repr, self.f))


class Flt:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Flt) and o.v == self.v

    def __hash__(self):
        return hash(('f', self.v))

    def __repr__(self):
        return 'f%s' % self.v


class KeyV:
    """an atom key template (bound variable RV) as a value inside an 'all' atom"""
    __slots__ = ('key',)

    def __init__(self, key):
        self.key = key

    def __eq__(self, o):
        return isinstance(o, KeyV) and o.key == self.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return '<%s>' % (self.key,)


def vsubst(v, m):
    t = type(v)
    if t is Lin:
        return v.subst(m)
    if t is Ptr:
        o = v.off.subst(m)
        b = v.blk.subst(m) if v.blk is not None else None
        if o is v.off and b is v.blk:
            return v
        return Ptr(v.obj, o, b)
    if t is Term:
        if not v.args:
            return v
        a = tuple(vsubst(x, m) for x in v.args)
        for x, y in zip(a, v.args):
            if x is not y:
                return Term(v.src, a, v.bits)
        return v
    if t is tuple:
        return csubst(v, m)
    if t is BInt:
        c = csubst(v.cond, m)
        return v if c is v.cond else BInt(c)
    if t is Agg:
        return Agg(vsubst(x, m) for x in v.f)
    if t is KeyV:
        k = ksubst(v.key, m)
        return v if k is v.key else KeyV(k)
    return v


def csubst(c, m):
    if isinstance(c, bool):
        return c
    k = c[0]
    if k in ('ge', 'eq', 'ne'):
        e = c[1].subst(m)
        if e is c[1]:
            return c
        if not e.t:
            return e.c >= 0 if k == 'ge' else (e.c == 0 if k == 'eq' else e.c != 0)
        return (k, e)
    if k == 'atom':
        nk = ksubst(c[1], m)
        return c if nk is c[1] else ('atom', nk, c[2])
    if k == 'and':
        return cand(csubst(c[1], m), csubst(c[2], m))
    if k == 'or':
        return cor(csubst(c[1], m), csubst(c[2], m))
    return c


def ksubst(key, m):
    """atom keys: (op, value, value, ...)"""
    ch = False
    out = [key[0]]
    for v in key[1:]:
        w = vsubst(v, m)
        if w is not v:
            ch = True
        out.append(w)
    return tuple(out) if ch else key


def vsyms(v, acc):
    t = type(v)
    if t is Lin:
        acc.update(s for s, _ in v.t)
    elif t is Ptr:
        acc.update(s for s, _ in v.off.t)
        if v.blk is not None:
            acc.update(s for s, _ in v.blk.t)
    elif t is Term:
        for a in v.args:
            vsyms(a, acc)
    elif t is BInt:
        vsyms(v.cond, acc)
    elif t is Agg:
        for a in v.f:
            vsyms(a, acc)
    elif t is KeyV:
        for a in v.key[1:]:
            vsyms(a, acc)
        acc.discard(RV)
    elif t is tuple:
        if v and v[0] in ('ge', 'eq', 'ne'):
            vsyms(v[1], acc)
        elif v and v[0] == 'atom':
            for a in v[1][1:]:
                vsyms(a, acc)
        elif v and v[0] in ('and', 'or'):
            vsyms(v[1], acc)
            vsyms(v[2], acc)
    return acc
