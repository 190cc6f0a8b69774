"""The abstract interpreter: LLVM IR over polyhedra x segmented arrays x
typestates, with trace partitioning and loop acceleration.

Loops are never unrolled to a bound: the effect of k iterations is generalised
from the transfer function of the body, and the generalisation is accepted only
when re-analysing the body from it reproduces it with k+1 (an inductive
invariant that is also exact)."""
import os
import sys
import zlib
import time
from .lin import Lin, L, ZERO, ONE, Cons, fresh
from .values import *
from .state import *
from .ir import locstr, Broken

SPTR = 64
INTS = {'i1': 1, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128}


def exc_id(ty):
    """the number a handler compares to know which exception it got"""
    return (zlib.crc32(str(ty).encode()) & 0x3fffffff) + 1


class Throw(Exception):
    def __init__(self, ty):
        self.ty = ty


class Exhausted(Exception):
    """the budget of this entry point is used up"""

    def __init__(self, msg):
        self.msg = msg


class Outcome:
    __slots__ = ('kind', 'st', 'val', 'loc')

    def __init__(self, kind, st, val=None, loc=None):
        self.kind = kind        # ret throw bad lost term
        self.st = st
        self.val = val
        self.loc = loc

    def __repr__(self):
        return '<%s %r @%s>' % (self.kind, self.val, self.loc)


def is_E(v):
    return v is MOVED or (isinstance(v, Term) and v.bits == 'E')


class Mem:
    """memory operations, all on a private copy of the state"""

    @staticmethod
    def require(st, c, msg):
        d = decide(st, c)
        if d is True:
            return
        if d is False:
            raise Bad(msg)
        raise Fork(c)


def truth(st, v):
    """the truth value of a comparison in this state (partitioning it if necessary)"""
    if isinstance(v.cond, bool):
        return v.cond
    d = decide(st, v.cond)
    if d is None:
        raise Fork(v.cond)
    return d


def normal_segs(st, segs):
    return tuple((lo, hi, v) for lo, hi, v in segs if not st.cons.entails(lo - hi))


def unchanged(s0, a0, s1, a1):
    """the operands and every object of s0 are in s1 what they were, and nothing was acquired since"""
    if len(a0) != len(a1) or s0.log != s1.log:
        return False
    sub = s1.elim
    if any(vsubst(a, sub) != vsubst(b, sub) for a, b in zip(a0, a1)):
        return False
    for k, o in s0.mem.items():
        p = s1.mem.get(k)
        if p is o:
            continue
        if p is None or type(p) is not type(o):
            return False
        o, p = o.subst(sub), p.subst(sub)
        if p is o:
            continue
        if p.alive != o.alive or isinstance(o, Flat) and (o.cells != p.cells or o.size != p.size) or isinstance(o, Arr) and (o.cols != p.cols or o.n != p.n) \
                or not isinstance(o, (Flat, Arr)):
            return False
    return all(k in s0.mem or o.kind == 'stack' for k, o in s1.mem.items())


class Engine:
    MAXSTATES = 400

    frozen = None

    def __init__(self, mod, models=None, trace=bool(os.environ.get("SA_TRACE"))):
        self.mod = mod
        self.search = None
        self.models = dict(models or {})
        self.trace = trace
        self.stats = {'instructions': 0, 'loops': 0, 'accelerated': 0, 'paths': 0, 'functions': set(), 'forks': 0,
                      'lines': set()}
        self.budget = 400000
        self.deadline = time.time() + float(os.environ.get('VERIF_ENTRY_S', '20'))
        self.inacc = 0
        self.unswitch = 0
        self.phase = 0
        self.given = 0
        self.peel = 0
        self.partial = []
        self.depth = 0
        self.onstack = []
        self.maxdepth = 12
        self.allocsite = None

    # ------------------------------------------------------------ operands
    def val(self, st, o):
        k = o[0]
        if k == 'i':
            return st.regs[o[1]]
        if k == 'a':
            return st.regs[('a', o[1])]
        if k == 'c':
            if o[1] == 1:
                return BInt(int(o[2]) != 0)
            return Lin((), int(o[2]))
        if k == 'n':
            return NULL
        if k == 'g':
            self.global_obj(st, o[1])
            return Ptr('@' + o[1], L(o[2]))
        if k == 'f':
            return Fn(o[1])
        if k == 'u':
            return RAW
        if k == 'd':
            return Flt(float(o[1])) if not isinstance(o[1], float) else Flt(o[1])
        if k == 's':
            return Agg([self.val(st, x) for x in o[1:]])
        if k == 'z':
            return Agg([ZERO, ZERO, ZERO, ZERO])
        if k == 'x' and o[1].startswith('metadata'):
            return TOP
        raise Lost('operand %r' % (o,))

    def global_obj(self, st, name):
        key = '@' + name
        if key in st.mem:
            return
        g = self.mod.globals.get(name)
        cells = {}
        size = None
        if g:
            size = g['size']
            for off, sz, op in g.get('cells', ()):
                if op[0] == 'zero':
                    for i in range(sz if sz <= 512 else 0):
                        cells[off + i] = (1, ZERO)
                    continue
                try:
                    cells[off] = (sz, self.val(st, op))
                except Lost:
                    cells[off] = (sz, TOP)
            if not g.get('init'):
                size = size or None
        st.mem[key] = Flat('glob', size, cells, tag='const' if g and g.get('const') else None)

    # ------------------------------------------------------------ integers
    def norm(self, st, v, bits, signed):
        """the canonical mathematical value of an integer register"""
        if isinstance(v, BInt):
            v = ONE if truth(st, v) else ZERO
        if v is RAW:
            raise Bad('use of an uninitialised value')
        if not isinstance(v, Lin):
            return v
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
        m = 1 << bits
        if v.is_const():
            c = v.c % m
            if signed and c > hi:
                c -= m
            return L(c)
        for _ in range(4):
            a = decide(st, ge(v - lo))
            b = decide(st, ge(hi - v))
            if a and b:
                return v
            if a is None:
                raise Fork(ge(v - lo))
            if a is False:
                v = v + m
                continue
            if b is None:
                raise Fork(ge(hi - v))
            v = v - m
        raise Lost('value range of %r' % (v,))

    def cond_of(self, st, v):
        if isinstance(v, BInt):
            return v.cond
        if isinstance(v, Lin):
            return cnot(eq0(v))
        if v is RAW:
            raise Bad('branch on an uninitialised value')
        if v is TOP:
            return ('top', 'unknown value')
        if isinstance(v, Term):
            return ('atom', ('eq', v, ZERO), False)
        raise Lost('condition value %r' % (v,))

    def icmp(self, st, pred, a, b, bits):
        if a is RAW or b is RAW:
            raise Bad('comparison of an uninitialised value')
        if a is TOP or b is TOP:
            return BInt(('top', 'comparison of an unknown value'))
        if isinstance(a, Fn) or isinstance(b, Fn):
            e = a == b
            return BInt(e if pred == 'eq' else not e)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Lin) and a.is_const():
                a = Ptr(None, a)
            if isinstance(b, Lin) and b.is_const():
                b = Ptr(None, b)
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
                raise Lost('pointer compared with an integer')
            if (end_of(st, a) or end_of(st, b)) and pred in ('eq', 'ne'):
                c = peq(st, a, b)
                return BInt(c if pred == 'eq' else cnot(c))
            if a.obj != b.obj:
                if pred == 'eq':
                    return BInt(False)
                if pred == 'ne':
                    return BInt(True)
                if a.obj is None or b.obj is None:
                    lt = a.obj is None
                    return BInt(lt if pred in ('ult', 'ule') else (not lt))
                return BInt(('top', 'order of pointers into different objects'))
            same = eq0(a.off - b.off)
            if a.blk is not None and b.blk is not None:
                o = st.mem.get(a.obj)
                if isinstance(o, Arr) and o.mode == 'chk' and a.blk != b.blk:
                    # one past the end of a block is not the next block
                    pass
                same = cand(eq0(a.blk - b.blk), same)
            if pred == 'eq':
                return BInt(same)
            if pred == 'ne':
                return BInt(cnot(same))
            if a.blk is not None and decide(st, eq0(a.blk - b.blk)) is not True:
                raise Lost('order of pointers into different blocks')
            d = a.off - b.off
            c = {'ult': ge(-d - 1), 'ule': ge(-d), 'ugt': ge(d - 1), 'uge': ge(d),
                 'slt': ge(-d - 1), 'sle': ge(-d), 'sgt': ge(d - 1), 'sge': ge(d)}[pred]
            return BInt(c)
        if isinstance(a, BInt) and isinstance(b, BInt):
            if pred in ('eq', 'ne'):
                c = veq(a, b)
                return BInt(c if pred == 'eq' else cnot(c))
        if isinstance(a, BInt) or isinstance(b, BInt):
            x, y = (a, b) if isinstance(a, BInt) else (b, a)
            if isinstance(y, Lin) and y.is_const() and pred in ('eq', 'ne'):
                c = x.cond if y.c % (1 << bits) == 1 else (cnot(x.cond) if y.c == 0 else False)
                return BInt(c if pred == 'eq' else cnot(c))
            z = ONE if truth(st, x) else ZERO
            return self.icmp(st, pred, z if x is a else a, z if x is b else b, bits)
        if isinstance(a, Lin) and isinstance(b, Lin):
            signed = pred[0] == 's'
            if pred in ('eq', 'ne'):
                d = a - b
                if not d.t:
                    e = d.c % (1 << bits) == 0
                    return BInt(e if pred == 'eq' else not e)
                # pick a representation in which both fit without splitting
                sa = self.fits(st, a, bits, True) and self.fits(st, b, bits, True)
                if not sa:
                    ua = self.fits(st, a, bits, False) and self.fits(st, b, bits, False)
                    signed = not ua and bits < 64
            a = self.norm(st, a, bits, signed)
            b = self.norm(st, b, bits, signed)
            d = a - b
            c = {'eq': eq0(d), 'ne': cnot(eq0(d)), 'ult': ge(-d - 1), 'ule': ge(-d), 'ugt': ge(d - 1), 'uge': ge(d),
                 'slt': ge(-d - 1), 'sle': ge(-d), 'sgt': ge(d - 1), 'sge': ge(d)}[pred]
            return BInt(c)
        return BInt(self.term_cmp(st, pred, a, b, bits))

    def fits(self, st, v, bits, signed):
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
        if v.is_const():
            return lo <= v.c <= hi
        return st.cons.entails(v - lo) and st.cons.entails(hi - v)

    def term_cmp(self, st, pred, a, b, bits):
        """comparison involving an opaque byte (Term) -> condition"""
        def key(x):
            return x
        if isinstance(a, Term) and a.src in ('zext', 'sext') and isinstance(b, Term) and b.src == a.src \
                and a.args[0].bits == b.args[0].bits:
            p = pred
            if a.src == 'zext':
                p = pred.replace('s', 'u') if pred[0] == 's' else pred
            return self.term_cmp(st, p, a.args[0], b.args[0], a.args[0].bits)
        for x, y, sw in ((a, b, False), (b, a, True)):
            if isinstance(x, Term) and x.src in ('zext', 'sext') and isinstance(y, Lin) and y.is_const():
                nb = x.args[0].bits
                m = 1 << bits
                c = y.c % m
                p = pred
                if sw:
                    p = {'slt': 'sgt', 'sle': 'sge', 'sgt': 'slt', 'sge': 'sle', 'ult': 'ugt', 'ule': 'uge',
                         'ugt': 'ult', 'uge': 'ule'}.get(pred, pred)
                if p[0] == 's':
                    cs = c - m if c >= m // 2 else c
                elif p in ('eq', 'ne'):
                    cs = c - m if (x.src == 'sext' and c >= m // 2) else c
                else:
                    cs = c
                if x.src == 'zext':
                    lo, hi = 0, (1 << nb) - 1
                else:
                    lo, hi = -(1 << (nb - 1)), (1 << (nb - 1)) - 1
                    if p[0] == 'u':
                        raise Lost('unsigned comparison of a sign-extended byte')
                if p == 'eq':
                    return self.term_cmp(st, 'eq', x.args[0], L(cs), nb) if lo <= cs <= hi else False
                if p == 'ne':
                    return cnot(self.term_cmp(st, 'eq', x.args[0], L(cs), nb)) if lo <= cs <= hi else True
                if p[1:] == 'lt' and cs > hi or p[1:] == 'le' and cs >= hi:
                    return True
                if p[1:] == 'gt' and cs < lo or p[1:] == 'ge' and cs <= lo:
                    return True
                if p[1:] == 'lt' and cs <= lo or p[1:] == 'le' and cs < lo:
                    return False
                if p[1:] == 'gt' and cs >= hi or p[1:] == 'ge' and cs > hi:
                    return False
                q = ('u' if x.src == 'zext' else 's') + p[1:]
                return self.term_cmp(st, q, x.args[0], L(cs), nb)
        if pred in ('eq', 'ne'):
            if isinstance(a, Lin):
                a, b = b, a
            if isinstance(b, Lin):
                b = self.norm(st, b, a.bits if isinstance(a.bits, int) else bits, True)
            c = ('atom', ('eq', a, b), True)
            k = canon_key(c[1])
            if isinstance(k, bool):
                c = k
            return c if pred == 'eq' else cnot(c)
        sg = pred[0]
        if isinstance(a, Lin):
            a = self.norm(st, a, bits, sg == 's')
        if isinstance(b, Lin):
            b = self.norm(st, b, bits, sg == 's')
        op = sg + 'lt'
        p = pred[1:]
        if p == 'lt':
            r = ('atom', (op, a, b), True)
        elif p == 'ge':
            r = ('atom', (op, a, b), False)
        elif p == 'gt':
            r = ('atom', (op, b, a), True)
        else:
            r = ('atom', (op, b, a), False)
        if a == b:
            return p in ('le', 'ge')
        return r

    def binop(self, st, op, a, b, bits, ins):
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            return Term(op, (self.fl(a), self.fl(b)), 'f')
        if a is RAW or b is RAW:
            raise Bad('arithmetic on an uninitialised value')
        if a is TOP or b is TOP:
            return TOP
        if bits == 1:
            ca, cb = self.cond_of(st, a), self.cond_of(st, b)
            if op == 'and':
                return BInt(cand(ca, cb))
            if op == 'or':
                return BInt(cor(ca, cb))
            if op == 'xor':
                if cb is True:
                    return BInt(cnot(ca))
                if cb is False:
                    return BInt(ca)
                if ca is True:
                    return BInt(cnot(cb))
                if ca is False:
                    return BInt(cb)
                return BInt(cb if not truth(st, BInt(ca)) else cnot(cb))
            raise Lost('i1 ' + op)
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj != b.obj:
                if b.obj is None and b.off == ZERO:
                    return a
                return TOP
            if a.blk is not None and decide(st, eq0(a.blk - b.blk)) is not True:
                # the blocks lie anywhere
                o = st.mem.get(a.obj)
                w = getattr(o, 'stride', None) or 1
                where = lambda x: Lin.sym('address(%s[%r])' % (x.obj, x.blk)) * w
                return a.off - b.off + where(a) - where(b)
            return a.off - b.off
        if isinstance(a, Ptr) and isinstance(b, Lin) and op in ('add', 'sub'):
            return a.plus(b if op == 'add' else -b)
        if isinstance(b, Ptr) and isinstance(a, Lin) and op == 'add':
            return b.plus(a)
        if isinstance(a, BInt) and isinstance(b, Lin) and op in ('and', 'or', 'xor') and b.is_const():
            if op == 'and' and b.c == 1:
                return a
        if isinstance(a, BInt):
            if isinstance(b, BInt) and op in ('and', 'or'):
                return BInt(cand(a.cond, b.cond) if op == 'and' else cor(a.cond, b.cond))
            a = L(int(truth(st, a)))
        if isinstance(b, BInt):
            b = L(int(truth(st, b)))
        if isinstance(a, Lin) and isinstance(b, Lin):
            if op == 'add':
                return a + b
            if op == 'sub':
                return a - b
            if op == 'mul':
                if b.is_const():
                    return a * b.c
                if a.is_const():
                    return b * a.c
                return Term('mul', (a, b), bits)
            if op == 'shl' and b.is_const():
                return a * (1 << b.c)
            if op in ('udiv', 'urem', 'lshr', 'sdiv', 'srem', 'ashr') and b.is_const():
                k = b.c
                if op in ('lshr', 'ashr'):
                    k = 1 << k
                signed = op[0] == 's' or op == 'ashr'
                if k == 0:
                    raise Bad('division by zero')
                a = self.norm(st, a, bits, signed)
                if k < 0:
                    raise Lost('division by a negative constant')
                if signed and op != 'ashr':
                    x = a.divides(k)
                    if x is not None:
                        return x if op == 'sdiv' else ZERO
                    d = decide(st, ge(a))
                    if d is None:
                        raise Fork(ge(a))
                    if d is False:
                        q = self.quot(st, -a, k)
                        return -q if op == 'sdiv' else a + q * k
                q = self.quot(st, a, k)
                return q if op in ('udiv', 'lshr', 'sdiv', 'ashr') else a - q * k
            if op == 'and':
                if a.is_const():
                    a, b = b, a
                if a.is_const():
                    return L((a.c & ((1 << bits) - 1)) & (b.c & ((1 << bits) - 1)))
                if b.is_const():
                    m = b.c % (1 << bits)
                    if (m & (m + 1)) == 0:
                        a = self.norm(st, a, bits, False)
                        return a - self.quot(st, a, m + 1) * (m + 1)
                    inv = (1 << bits) - 1 - m
                    if (inv & (inv + 1)) == 0:
                        a = self.norm(st, a, bits, False)
                        return self.quot(st, a, inv + 1) * (inv + 1)
            if op == 'or' and a.is_const() and b.is_const():
                return L(a.c | b.c)
            if op == 'xor' and b.is_const() and b.c == -1:
                return -a - 1
            if op == 'xor' and a.is_const() and b.is_const():
                return L(a.c ^ b.c)
            if op == 'shl' and a.is_const() and b.is_const():
                return L(a.c << b.c)
            if op in ('or', 'and') and a == b:
                return a
            if (op == 'or' or op == 'xor') and b == ZERO:
                return a
            if (op == 'or' or op == 'xor') and a == ZERO:
                return b
            if op in ('udiv', 'urem'):
                if decide(st, eq0(b)) is not False:
                    if decide(st, eq0(b)):
                        raise Bad('division by zero')
                    raise Fork(eq0(b))
            return Term(op, (a, b), bits)
        return Term(op, (a, b), bits)

    def fl(self, v):
        if v is RAW:
            raise Bad('arithmetic on an uninitialised value')
        return v

    def quot(self, st, a, k):
        """floor(a/k) for a canonical a; a memoised symbol with its constraints"""
        if k == 1:
            return a
        x = a.divides(k)
        if x is not None:
            return x
        # split off the multiple part
        mt = {}
        rt = {}
        for s, c in a.t:
            q, r = divmod(c, k)
            if r == 0:
                mt[s] = q
            else:
                rt[s] = c
        qc, rc = divmod(a.c, k)
        base = Lin.of(mt, qc)
        rest = Lin.of(rt, rc)
        if not rest.t:
            return base
        # is the remainder part already within [0,k)?
        if st.cons.entails(rest) and st.cons.entails(k - 1 - rest):
            return base
        memo = ('quot', rest, L(k))
        for key in st.facts:
            if key[0] == 'quot' and key[1] == rest and key[2] == L(k):
                return base + key[3]
        q = Lin.sym(fresh('q'))
        st.cons = st.cons.add(rest - q * k).add(q * k + (k - 1) - rest)
        st.facts[memo + (q,)] = True
        return base + q

    def cast(self, st, op, v, fb, tb):
        if op in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'freeze'):
            return v
        if v is TOP:
            return TOP
        if v is RAW:
            return RAW
        if op in ('fpext', 'fptrunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui'):
            if isinstance(v, Flt) and op in ('fpext',):
                return v
            if isinstance(v, Lin) and v.is_const() and op in ('sitofp', 'uitofp'):
                return Flt(float(v.c))
            return Term(op, (v,), 'f' if op[0] != 'f' or op in ('fpext', 'fptrunc') else tb)
        if op == 'trunc':
            if tb == 1:
                if isinstance(v, BInt):
                    return v
                if isinstance(v, Lin):
                    if v.is_const():
                        return BInt(v.c % 2 == 1)
                    if decide(st, ge(v)) and decide(st, ge(1 - v)):
                        return BInt(eq0(v - 1))
                if isinstance(v, Term) and v.bits == 1:
                    return BInt(('atom', ('eq', v, ONE), True))
                if isinstance(v, Term):
                    return BInt(('atom', ('eq', v, ONE), True))
                raise Lost('trunc to i1 of %r' % (v,))
            if isinstance(v, Term) and v.src in ('zext', 'sext') and v.args[0].bits == tb:
                return v.args[0]
            if isinstance(v, (Lin, BInt)):
                return v
            if isinstance(v, Term):
                return Term('trunc', (v,), tb)
            raise Lost('trunc of %r' % (v,))
        if op in ('zext', 'sext'):
            if isinstance(v, BInt):
                if op == 'zext':
                    return v
                return L(-1 if truth(st, v) else 0)
            if isinstance(v, Lin):
                return self.norm(st, v, fb, op == 'sext')
            if isinstance(v, Term):
                if v.src == op:
                    return Term(op, v.args, tb)
                if v.src == 'zext' and op == 'sext':
                    return Term('zext', v.args, tb)
                if not isinstance(v.bits, int):
                    raise Lost('extension of %r' % (v,))
                return Term(op, (v if v.bits == fb else Term(v.src, v.args, fb),), tb)
        raise Lost('%s of %r' % (op, v))

    # ------------------------------------------------------------ memory
    def resolved(self, st, p):
        return resolve(st, p) if isinstance(p, Ptr) and p.blk is not None else p

    def obj(self, st, p, what):
        if p is RAW:
            raise Bad('%s through an uninitialised pointer' % what)
        if p is TOP or not isinstance(p, Ptr):
            raise Lost('%s through %r' % (what, p))
        if p.obj is None:
            raise Bad('%s through a null pointer' % what)
        o = st.mem.get(p.obj)
        if o is None:
            if p.obj.startswith('@'):
                self.global_obj(st, p.obj[1:])
                return st.mem[p.obj]
            raise Lost('%s of unknown object %s' % (what, p.obj))
        if o.alive is False:
            raise Bad('%s of a deallocated object (%s)' % (what, p.obj))
        return o

    def to_arr(self, st, name, o, w):
        """reinterpret a flat object as an array of w-byte cells"""
        if not isinstance(o.size, int) or o.size % w:
            raise Lost('symbolic offset into %s' % name)
        n = o.size // w
        vals = [RAW] * n
        for off, (sz, v) in o.cells.items():
            if sz != w or off % w:
                raise Lost('symbolic offset into mixed object %s' % name)
            vals[off // w] = v
        segs = []
        for i, v in enumerate(vals):
            if segs and segs[-1][2] == v:
                segs[-1] = (segs[-1][0], L(i + 1), v)
            else:
                segs.append((L(i), L(i + 1), v))
        a = Arr(o.kind, 'lin', w, L(n), {0: (w, tuple(segs))}, True, o.tag)
        st.mem[name] = a
        return a

    def locate(self, st, p, w, what):
        """-> ('flat', obj, off) or ('arr', obj, coff, idx)"""
        p = self.resolved(st, p)
        o = self.obj(st, p, what)
        if isinstance(o, Flat):
            if o.tag == 'opaque':
                raise Lost('%s of the representation of an object known by its contents' % what)
            off = p.off
            if p.blk is not None:
                raise Lost('block pointer into flat object')
            if not off.is_const():
                o = self.to_arr(st, p.obj, o, w)
            else:
                if o.size is not None:
                    if isinstance(o.size, int):
                        if off.c < 0 or off.c + w > o.size:
                            raise Bad('%s outside the bounds of %s' % (what, self.desc(p.obj)))
                    else:
                        Mem.require(st, ge(o.size - off.c - w), '%s outside the bounds of %s' % (what, self.desc(p.obj)))
                        if off.c < 0:
                            raise Bad('%s outside the bounds of %s' % (what, self.desc(p.obj)))
                return 'flat', o, off.c, None
        if o.stride is None:
            n = o.n.divides(w)
            if n is None:
                raise Lost('array of %r bytes accessed with width %d' % (o.n, w))
            o = o.copy(stride=w, n=n)
            st.mem[p.obj] = o
        if o.mode == 'lin':
            coff, idx = self.split(st, p.off, o.stride)
            self.bounds(st, p, o, idx, what)
            if coff + w > o.stride:
                raise Lost('%s straddling cells of %s' % (what, p.obj))
            return 'arr', o, coff, idx
        if o.mode == 'fam':
            if p.blk is None or not p.off.is_const():
                raise Lost('node pointer %r' % (p,))
            if p.off.c < 0 or p.off.c + w > o.stride:
                raise Bad('%s outside the bounds of a node' % what)
            self.alive_at(st, p, o, what)
            return 'arr', o, p.off.c, p.blk
        coff, idx = self.split(st, p.off, o.stride)
        self.alive_at(st, p, o, what)
        Mem.require(st, ge(idx), '%s before the start of a chunk' % what)
        Mem.require(st, ge(o.per - 1 - idx), '%s past the end of a chunk' % what)
        return 'arr', o, coff, p.blk * o.per + idx

    def desc(self, name):
        return name

    def split(self, st, off, stride):
        c = off.c % stride
        e = (off - c).divides(stride)
        if e is None:
            raise Lost('offset %r not a multiple of %d' % (off, stride))
        return c, e

    def bounds(self, st, p, o, idx, what):
        Mem.require(st, ge(idx), '%s before the start of %s' % (what, self.desc(p.obj)))
        Mem.require(st, ge(o.n - 1 - idx), '%s past the end of %s' % (what, self.desc(p.obj)))

    def alive_at(self, st, p, o, what):
        Mem.require(st, ge(p.blk), '%s of an invalid node' % what)
        Mem.require(st, ge(o.n - 1 - p.blk), '%s of an invalid node' % what)
        if o.alive is not True:
            v = self.seg_get(st, o.alive, p.blk)
            if v == ZERO:
                raise Bad('%s of a deallocated node' % what)

    def seg_find(self, st, segs, idx):
        for j, (lo, hi, v) in enumerate(segs):
            c = ge(hi - 1 - idx)
            d = decide(st, c)
            if d is True:
                return j
            if d is None:
                raise Fork(c)
        raise Bad('access outside the bounds of the object')

    def seg_get(self, st, segs, idx):
        j = self.seg_find(st, segs, idx)
        return at(segs[j][2], idx)

    def seg_set(self, st, segs, idx, v, affine=True):
        j = self.seg_find(st, segs, idx)
        lo, hi, old = segs[j]
        if at(old, idx) == v:
            return segs
        new = [(lo, idx, old), (idx, idx + 1, v), (idx + 1, hi, old)]
        out = list(segs[:j]) + [x for x in new if not st.cons.entails(x[0] - x[1])] + list(segs[j + 1:])
        return self.seg_merge(st, out, affine)

    def seg_merge(self, st, segs, affine=True):
        out = []
        for s in segs:
            if st.cons.entails(s[0] - s[1]):
                continue
            while True:
                if not out:
                    out.append(s)
                    break
                m = self.merge2(st, out[-1], s, affine)
                if m is None:
                    out.append(s)
                    break
                out.pop()
                s = m
        return tuple(out)

    def merge2(self, st, a, b, affine=True):
        if a[2] == b[2] and (not has_idx(a[2]) or True):
            return (a[0], b[1], a[2])
        sa = (a[1] - a[0]) == ONE
        sb = (b[1] - b[0]) == ONE
        if sb:
            vb = at(b[2], b[0])
            if at(a[2], b[0]) == vb and (has_idx(a[2]) or not sa):
                return (a[0], b[1], a[2])
        if sa:
            va = at(a[2], a[0])
            if at(b[2], a[0]) == va and (has_idx(b[2]) or not sb):
                return (a[0], b[1], b[2])
        if sa and sb and affine:
            va, vb = at(a[2], a[0]), at(b[2], b[0])
            if isinstance(va, Special) or isinstance(vb, Special):
                return None
            t = anti(va, vb, a[0])
            if t is not None:
                return (a[0], b[1], t)
        return None

    def col(self, o, coff, w):
        c = o.cols.get(coff)
        if c is None:
            for k, (w2, _) in o.cols.items():
                if k < coff + w and coff < k + w2:
                    raise Lost('overlapping access of widths %d and %d' % (w, w2))
            n = o.n * o.per if o.mode == 'chk' else o.n
            return ((ZERO, n, RAW),)
        if c[0] != w:
            raise Lost('access of width %d to a cell of width %d' % (w, c[0]))
        return c[1]

    def load(self, st, p, w, ty=None):
        p = self.resolved(st, p)
        k, o, off, idx = self.locate(st, p, w, 'read')
        if k == 'flat':
            c = o.cells.get(off)
            if c is not None and c[0] == w:
                return c[1]
            if c is None:
                hit = [x for x, (s, _) in o.cells.items() if x < off + w and off < x + s]
                if not hit:
                    if o.kind == 'glob' and o.tag != 'const' or o.kind == 'ext':
                        return TOP
                    return RAW
            # zero bytes read at a larger width
            if all(o.cells.get(off + i, (0, None)) == (1, ZERO) for i in range(w)):
                return NULL if ty == 'ptr' else ZERO
            if c is not None and c[0] > w and isinstance(c[1], Lin) and c[1].is_const():
                return L(c[1].c % (1 << (8 * w)))
            raise Lost('partial read of %s at %d' % (p.obj, off))
        segs = self.col(o, off, w)
        v = self.seg_get(st, segs, idx)
        if ty == 'ptr' and isinstance(v, Lin) and v == ZERO:
            return NULL
        return v

    def store(self, st, p, w, v):
        p = self.resolved(st, p)
        k, o, off, idx = self.locate(st, p, w, 'write')
        if o.kind == 'glob' and o.tag == 'const':
            raise Bad('write to a constant')
        if o.kind == 'ro':
            raise Bad('write through a const reference to %s' % self.desc(p.obj))
        if self.frozen and self.frozen(p.obj):
            raise Bad('a read-only operation writes to %s' % self.desc(p.obj))
        if k == 'flat':
            cells = dict(o.cells)
            for x, (s, ov) in list(cells.items()):
                if x < off + w and off < x + s and x != off:
                    if x >= off and x + s <= off + w:
                        del cells[x]
                    elif ov is RAW or ov is TOP:
                        del cells[x]
                    elif isinstance(ov, Lin) and ov == ZERO:
                        # split a zero cell
                        del cells[x]
                        for b in range(x, x + s):
                            if not (off <= b < off + w):
                                cells[b] = (1, ZERO)
                    else:
                        raise Lost('partial overwrite of %s at %d' % (p.obj, off))
            cells[off] = (w, v)
            st.mem[p.obj] = o.copy(cells=cells)
            return
        segs = self.col(o, off, w)
        segs = self.seg_set(st, segs, idx, v)
        cols = dict(o.cols)
        cols[off] = (w, segs)
        st.mem[p.obj] = o.copy(cols=cols)

    # ranges of a column: [idx, idx+n)
    def seg_slice(self, st, segs, lo, hi):
        """the segments of [lo,hi) (absolute indices)"""
        out = []
        for a, b, v in segs:
            # overlap of [a,b) and [lo,hi)
            d = decide(st, ge(lo - b))       # b <= lo
            if d is None:
                raise Fork(ge(lo - b))
            if d:
                continue
            d = decide(st, ge(a - hi))       # a >= hi
            if d is None:
                raise Fork(ge(a - hi))
            if d:
                break
            d1 = decide(st, ge(a - lo))
            if d1 is None:
                raise Fork(ge(a - lo))
            d2 = decide(st, ge(hi - b))
            if d2 is None:
                raise Fork(ge(hi - b))
            out.append((a if d1 else lo, b if d2 else hi, v))
        return out

    def seg_put(self, st, segs, lo, hi, new):
        """replace [lo,hi) by the segments `new`"""
        if st.cons.entails(lo - hi):
            return segs
        pre, post = [], []
        for a, b, v in segs:
            d = decide(st, ge(lo - b))
            if d is None:
                raise Fork(ge(lo - b))
            if d:
                pre.append((a, b, v))
                continue
            d = decide(st, ge(a - hi))
            if d is None:
                raise Fork(ge(a - hi))
            if d:
                post.append((a, b, v))
                continue
            d1 = decide(st, ge(a - lo))
            if d1 is None:
                raise Fork(ge(a - lo))
            if not d1:
                pre.append((a, lo, v))
            d2 = decide(st, ge(hi - b))
            if d2 is None:
                raise Fork(ge(hi - b))
            if not d2:
                post.append((hi, b, v))
        return self.seg_merge(st, pre + list(new) + post)

    def alloc(self, st, size, kind, stride=None):
        """size in bytes (Lin)"""
        name = fresh('heap')
        if size.is_const() and stride is None:
            st.mem[name] = Flat('heap', size.c, {}, tag=kind)
        elif size.is_const() and False:
            pass
        elif stride is None:
            st.mem[name] = Arr('heap', 'lin', None, size, {}, True, kind)
        else:
            st.mem[name] = Arr('heap', 'lin', stride, size, {}, True, kind)
        return Ptr(name)

    def size_of(self, o):
        if isinstance(o, Flat):
            return L(o.size)
        return o.n * (o.stride or 1)

    def live_elements(self, st, o):
        """raise Bad when the object still holds a constructed opaque element"""
        if isinstance(o, Flat):
            for off, (sz, v) in o.cells.items():
                if is_E(v):
                    raise Bad('storage released while an element in it is still alive')
            return
        for c, (w, segs) in o.cols.items():
            for lo, hi, v in segs:
                if is_E(v):
                    d = decide(st, ge(lo - hi))
                    if d is None:
                        raise Fork(ge(lo - hi))
                    if d is False:
                        raise Bad('storage released while elements in it are still alive')

    def dealloc(self, st, p, kind, size=None):
        p = self.resolved(st, p)
        if p == NULL:
            return
        if p is RAW:
            raise Bad('deallocation of an uninitialised pointer')
        if not isinstance(p, Ptr) or p.obj is None:
            raise Lost('deallocation of %r' % (p,))
        o = st.mem.get(p.obj)
        if o is None:
            raise Lost('deallocation of an unknown object')
        if o.alive is False:
            raise Bad('deallocation of an already deallocated object')
        if self.frozen and self.frozen(p.obj):
            raise Bad('a read-only operation writes to %s (it is released)' % self.desc(p.obj))
        if o.kind in ('stack', 'glob', 'ro'):
            raise Bad('deallocation of an object that was not allocated')
        if o.kind == 'ext':
            raise Bad('deallocation of storage the container does not own')
        if o.tag != kind:
            raise Bad('deallocation with %s of storage obtained with %s' % (kind, o.tag))
        Mem.require(st, eq0(p.off), 'deallocation of a pointer into the middle of an object')
        if isinstance(o, Arr) and o.mode in ('fam', 'chk'):
            self.alive_at(st, p, o, 'deallocation')
            self.fam_live(st, o, p.blk)
            al = o.alive
            if al is True:
                al = ((ZERO, o.n, ONE),)
            if size is not None:
                Mem.require(st, eq0(size - (o.bsize or o.stride)), 'deallocation with a wrong size')
            al = self.seg_set(st, al, p.blk, ZERO, False)
            st.mem[p.obj] = o.copy(alive=al)
            return
        if size is not None:
            Mem.require(st, eq0(self.size_of(o) - size), 'deallocation with a different size (%r) than allocated (%r)' % (size, self.size_of(o)))
        self.live_elements(st, o)
        st.mem[p.obj] = o.copy(alive=False)

    def fam_live(self, st, o, blk):
        for c, (w, segs) in o.cols.items():
            if o.mode == 'fam':
                v = self.seg_get(st, segs, blk)
                if is_E(v):
                    raise Bad('node released while its element is still alive')
            elif any(is_E(v) and decide(st, ge(lo - hi)) is not True for lo, hi, v in segs):
                for lo, hi, v in self.seg_slice(st, segs, blk * o.per, blk * o.per + o.per):
                    if is_E(v):
                        d = decide(st, ge(lo - hi))
                        if d is None:
                            raise Fork(ge(lo - hi))
                        if d is False:
                            raise Bad('chunk released while elements in it are still alive')

    # ------------------------------------------------------------ instructions
    def gep(self, st, ins):
        b = self.val(st, ins['base'])
        if not ins.get('ok'):
            raise Lost('address computation')
        off = L(ins['coff'])
        for o, sc in ins['vars']:
            v = self.val(st, o)
            if isinstance(v, BInt):
                v = L(int(truth(st, v)))
            if v is RAW:
                raise Bad('address computed from an uninitialised value')
            if not isinstance(v, Lin):
                raise Lost('address offset %r' % (v,))
            v = self.norm(st, v, 64, True)
            off = off + v * sc
        if b is RAW:
            raise Bad('address computed from an uninitialised pointer')
        if isinstance(b, Fn) and off == ZERO:
            return b
        if not isinstance(b, Ptr):
            raise Lost('address of %r' % (b,))
        return b.plus(off)

    def bits(self, ty):
        return INTS.get(ty, 64)

    def step(self, F, st, ins):
        """execute a non-terminator on a private state; result value"""
        op = ins['op']
        if op == 'load':
            return self.load(st, self.val(st, ins['args'][0]), ins['sz'], ins['ty'])
        if op == 'store':
            a = ins['args']
            v = self.val(st, a[0])
            if ins['vty'] == 'ptr' and isinstance(v, Lin) and v == ZERO:
                v = NULL
            if isinstance(v, Agg) :
                raise Lost('aggregate store')
            self.store(st, self.val(st, a[1]), ins['vsz'], v)
            return None
        if op == 'alloca':
            name = fresh('loc')
            st.mem[name] = Flat('stack', ins['size'], {}, tag=ins.get('aty'))
            return Ptr(name)
        if op == 'getelementptr':
            return self.gep(st, ins)
        if op == 'icmp':
            # width from the operands' type is not recorded: use constants or 64
            a, b = ins['args'][:2]
            bits = ins.get('obits') or self.opbits(F, a, b)
            return self.icmp(st, ins['pred'], self.val(st, a), self.val(st, b), bits)
        if op == 'fcmp':
            a, b = ins['args'][:2]
            return BInt(self.fcmp(st, ins['pred'], self.val(st, a), self.val(st, b)))
        if op == 'select':
            c = self.cond_of(st, self.val(st, ins['args'][0]))
            d = decide(st, c)
            if d is not None:
                c = d
            if isinstance(c, bool):
                return self.val(st, ins['args'][1 if c else 2])
            a, b = self.val(st, ins['args'][1]), self.val(st, ins['args'][2])
            if a == b:
                return a
            if isinstance(a, BInt) and isinstance(b, BInt):
                if b.cond is False:
                    return BInt(cand(c, a.cond))
                if a.cond is True:
                    return BInt(cor(c, b.cond))
            raise Fork(c)
        if op in ('extractvalue',):
            v = self.val(st, ins['args'][0])
            for i in ins['idx']:
                if isinstance(v, Agg):
                    v = v.f[i]
                elif v is RAW:
                    v = RAW
                else:
                    raise Lost('extractvalue of %r' % (v,))
            return v
        if op == 'insertvalue':
            v = self.val(st, ins['args'][0])
            x = self.val(st, ins['args'][1])
            i = ins['idx'][0]
            if len(ins['idx']) > 1:
                raise Lost('nested insertvalue')
            f = list(v.f) if isinstance(v, Agg) else [RAW] * max(8, i + 1)
            while len(f) <= i:
                f.append(RAW)
            f[i] = x
            return Agg(f)
        if op in ('fneg',):
            v = self.val(st, ins['args'][0])
            if isinstance(v, Flt):
                return Flt(-v.v)
            if isinstance(v, Term) and v.src == 'fneg':
                return v.args[0]
            return Term('fneg', (v,), 'f')
        if op == 'freeze':
            return self.val(st, ins['args'][0])
        if 'fty' in ins:
            return self.cast(st, op, self.val(st, ins['args'][0]), self.bits(ins['fty']), self.bits(ins['ty']))
        if op == 'landingpad':
            return st.regs.get('exc', Agg([TOP, TOP]))
        if op == 'fence':
            return None
        if len(ins.get('args', ())) == 2:
            return self.binop(st, op, self.val(st, ins['args'][0]), self.val(st, ins['args'][1]), self.bits(ins['ty']), ins)
        raise Lost('instruction ' + op)

    def fcmp(self, st, pred, a, b):
        if a is RAW or b is RAW:
            raise Bad('comparison of an uninitialised value')
        if isinstance(a, Flt) and isinstance(b, Flt):
            x, y = a.v, b.v
            un = x != x or y != y
            p = pred
            if p == 'ord':
                return not un
            if p == 'uno':
                return un
            r = {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p[1:]]
            return (un or r) if p[0] == 'u' else (not un and r)
        return ('atom', ('f' + pred, a, b), True)

    def opbits(self, F, a, b):
        for o in (a, b):
            if o[0] == 'c':
                return o[1]
            if o[0] == 'i':
                t = F.types.get(o[1])
                if t in INTS:
                    return INTS[t]
            if o[0] == 'a':
                t = F.params[o[1]]['ty']
                if t in INTS:
                    return INTS[t]
        return 64

    # ------------------------------------------------------------ control
    def phis(self, F, st, src, dst):
        blk = F.blocks[dst]
        vals = []
        for ins in blk:
            if ins['op'] != 'phi':
                break
            for b, o in ins['in']:
                if b == src:
                    vals.append((ins['id'], self.val(st, o)))
                    break
            else:
                raise Broken('phi without edge')
        if vals:
            st = st.copy()
            for i, v in vals:
                st.regs[i] = v
        return st

    def region(self, F, work, Lp, first=True):
        """run from (block, state) pairs inside loop Lp (None: function).
        -> backs, exits, outcomes"""
        backs, exits, outs = [], [], []
        work = list(work)
        start = Lp.header if Lp else None

        def route(src, dst, st):
            st = self.phis(F, st, src, dst)
            if Lp is not None:
                if dst == Lp.header:
                    backs.append(st)
                    return
                if dst not in Lp.blocks:
                    exits.append((src, dst, st))
                    return
            work.append((dst, st))

        while work:
            blk, st = work.pop()
            if len(work) > self.MAXSTATES:
                raise Lost('too many paths')
            hd = F.header.get(blk)
            if hd is not None and hd is not Lp:
                ex, o = self.loop(F, hd, st)
                outs += o
                for src, dst, s2 in ex:
                    # phis already assigned
                    if Lp is not None:
                        if dst == Lp.header:
                            backs.append(s2)
                            continue
                        if dst not in Lp.blocks:
                            exits.append((src, dst, s2))
                            continue
                    work.append((dst, s2))
                continue
            self.block(F, blk, st, route, outs)
        return backs, exits, outs

    def block(self, F, blk, st, route, outs):
        insl = F.blocks[blk]
        todo = [(0, st.copy())]
        while todo:
            i, s = todo.pop()
            while True:
                ins = insl[i]
                op = ins['op']
                if op == 'phi':
                    i += 1
                    continue
                self.budget -= 1
                self.stats['instructions'] += 1
                if self.budget < 0 or time.time() > self.deadline:
                    raise Exhausted('analysis budget exhausted')
                if ins.get('loc'):
                    self.stats['lines'].add((ins['loc'][0][0], ins['loc'][0][1]))
                try:
                    if op in ('br', 'switch', 'ret', 'unreachable', 'resume'):
                        self.terminator(F, blk, s, ins, route, outs)
                        break
                    if op in ('call', 'invoke'):
                        r = self.call(F, s, ins)
                        # list of (kind, state, value)
                        nxt = []
                        for kind, s2, v in r:
                            if kind == 'ret':
                                s2.regs[ins['id']] = v
                                if op == 'invoke':
                                    route(blk, ins['normal'], s2)
                                else:
                                    nxt.append((i + 1, s2))
                            elif kind == 'throw':
                                if op == 'invoke':
                                    s2.regs['exc'] = Agg([Term('exc', (), v), L(exc_id(v))])
                                    s2.regs['exct'] = v
                                    route(blk, ins['unwind'], s2)
                                else:
                                    outs.append(Outcome('throw', s2, v, locstr(ins)))
                            else:
                                outs.append(Outcome(kind, s2, v, locstr(ins)))
                        if op == 'invoke':
                            break
                        todo += nxt
                        break
                    c = s.copy()
                    v = self.step(F, c, ins)
                    if v is not None:
                        c.regs[ins['id']] = v
                    s = c
                    i += 1
                    continue
                except Fork as f:
                    self.stats['forks'] += 1
                    if self.trace:
                        print('   fork', f.cond, locstr(ins))
                    if hasattr(f, 'states'):
                        try:
                            todo += [(i, x.copy()) for x in f.states(s)]
                        except Bad as e:
                            outs.append(Outcome('bad', s, e.msg, locstr(ins)))
                            if not self.inacc:
                                self.partial.append(outs[-1])
                        except Lost as e:
                            outs.append(Outcome('lost', s, e.msg, locstr(ins)))
                        break
                    a = assume(s, f.cond)
                    b = assume(s, cnot(f.cond))
                    for x in a + b:
                        if decide(x, csubst(f.cond, x.elim) if x.elim else f.cond) is None:
                            outs.append(Outcome('lost', x, 'condition %r is not decided by assuming it' % (f.cond,), locstr(ins)))
                            continue
                        todo.append((i, x.copy()))
                    break
                except Bad as e:
                    outs.append(Outcome('bad', s, e.msg, locstr(ins)))
                    if not self.inacc:
                        self.partial.append(outs[-1])
                    break
                except Throw as e:
                    if op == 'invoke':
                        s.regs['exc'] = Agg([Term('exc', (), e.ty), L(exc_id(e.ty))])
                        s.regs['exct'] = e.ty
                        route(blk, ins['unwind'], s)
                    else:
                        outs.append(Outcome('throw', s, e.ty, locstr(ins)))
                    break
                except Lost as e:
                    if self.trace:
                        print('   LOST', e.msg, locstr(ins))
                    outs.append(Outcome('lost', s, e.msg, locstr(ins)))
                    break

    def terminator(self, F, blk, s, ins, route, outs):
        op = ins['op']
        if op == 'ret':
            a = ins.get('args') or []
            v = self.val(s, a[0]) if a else None
            outs.append(Outcome('ret', s, v, locstr(ins)))
            if not self.inacc and len(s.frames) == 1:
                self.partial.append(outs[-1])
            return
        if op == 'unreachable':
            raise Bad('reaches an unreachable point (undefined behaviour)')
        if op == 'resume':
            outs.append(Outcome('throw', s, s.regs.get('exct'), locstr(ins)))
            return
        if op == 'br':
            if len(ins['succ']) == 1:
                route(blk, ins['succ'][0], s)
                return
            c = self.cond_of(s, self.val(s, ins['cond']))
            for t, cc in ((ins['succ'][0], c), (ins['succ'][1], cnot(c))):
                for s2 in assume(s, cc):
                    route(blk, t, s2.copy())
            return
        if op == 'switch':
            v = self.val(s, ins['cond'])
            cur = [s]
            for cv, t in ins['cases']:
                nxt = []
                for s1 in cur:
                    v1 = self.val(s1, ins['cond'])
                    c = self.icmp(s1, 'eq', v1, L(int(cv[2])) if cv[0] == 'c' else self.val(s1, cv), cv[1]).cond
                    for s2 in assume(s1, c):
                        route(blk, t, s2.copy())
                    nxt += assume(s1, cnot(c))
                cur = nxt
            for s1 in cur:
                route(blk, ins['default'], s1.copy())
            return
        raise Lost('terminator ' + op)

    # ------------------------------------------------------------ calls
    def call(self, F, s, ins):
        f = self.val(s, ins['fn'])
        if not isinstance(f, Fn):
            if f == NULL:
                raise Bad('call through a null function pointer')
            if f is RAW:
                raise Bad('call through an uninitialised function pointer')
            m = self.models.get('*indirect')
            if m:
                c = s.copy()
                r = m(self, c, f, [self.val(s, a) for a in ins['args']], ins)
                return r if isinstance(r, list) else [('ret', c, r)]
            raise Lost('indirect call of %r' % (f,))
        name = self.callee = f.name
        args = [self.val(s, a) for a in ins['args']]
        m = self.models.get(name)
        if m is None:
            for pre, mm in self.models.get('*prefix', ()):
                if name.startswith(pre):
                    m = mm
                    break
        if m is not None:
            c = s.copy()
            r = m(self, c, args, ins)
            return r if isinstance(r, list) else [('ret', c, r)]
        fn = self.mod.funcs.get(name)
        if fn is None:
            raise Lost('call of unmodelled function ' + name)
        if self.depth > self.maxdepth:
            raise Lost('call depth')
        c = s.copy()
        for n0, a0, s0 in self.onstack:
            if n0 == name and unchanged(s0, a0, c, args):
                raise Bad('the call never returns: %s calls itself with the same operands and nothing has changed' % name)
        self.depth += 1
        self.onstack.append((name, args, s))
        try:
            outs = self.run_func(fn, c, args)
        finally:
            self.depth -= 1
            self.onstack.pop()
        res = []
        for o in outs:
            if o.kind in ('ret', 'throw'):
                o.st.frames = o.st.frames[:-1]
                o.st.frames[-1] = dict(o.st.frames[-1])
            res.append((o.kind, o.st, o.val))
        return res

    def run_func(self, fn, st, args):
        self.stats['functions'].add(fn.name)
        regs = {('a', i): v for i, v in enumerate(args)}
        st.frames = st.frames + [regs]
        b, e, outs = self.region(fn, [(fn.entry, st)], None)
        return outs

    def run(self, name, st, args):
        """analyse an entry point; -> outcomes"""
        fn = self.mod.funcs.get(name)
        if fn is None:
            if self.mod.masked:
                return [Outcome('lost', st, 'the operation does not compile for the types of the harness', name)]
            raise Broken('entry point %s is missing' % name)
        st = st.copy()
        st.frames = []
        regs = {('a', i): v for i, v in enumerate(args)}
        st.frames = [regs]
        self.stats['functions'].add(name)
        try:
            b, e, outs = self.region(fn, [(fn.entry, st)], None)
        except (Lost, Exhausted) as ex:
            outs = self.partial + [Outcome('lost', st, ex.msg, name)]
        self.stats['paths'] += len(outs)
        return outs

    # ------------------------------------------------------------ loops
    def loop(self, F, Lp, st):
        """-> exits [(src,dst,state)], outcomes"""
        if not self.peel or self.given or self.inacc:
            return self.loop_general(F, Lp, st)
        # most sizes are given: what cannot be summarised is followed round by round
        r = self.loop_general(F, Lp, st.copy())
        if not any(o.kind == 'lost' for o in r[1]):
            return r
        exits, outs = [], []
        work = [self.cut(st)]
        for i in range(self.peel):
            nxt = []
            for s in work:
                b, e, o = self.region(F, [(Lp.header, s)], Lp)
                exits += e
                outs += o
                nxt += b
            work = nxt
            if not work or len(work) > 60:
                break
        for x in exits:
            x[2].trail = tuple(csubst(c, x[2].elim) for c in st.trail) + x[2].trail
        return exits, outs + [Outcome('lost', x, 'loop not followed to its end', self.loop_loc(F, Lp)) for x in work[:1]]

    def loop_general(self, F, Lp, st):
        self.stats['loops'] += 1
        st = st.copy()
        outer_trail = st.trail
        S = [self.cut(st)]
        exits, outs = [], []
        runs = []

        def fix(ex):
            for x in ex:
                x[2].trail = outer_trail_subst(outer_trail, x[2]) + x[2].trail
            return ex

        def outer_trail_subst(t, s):
            if not s.elim:
                return t
            return tuple(csubst(c, s.elim) for c in t)

        if self.given:
            # every value is given: iterations one by one
            work = [S[0]]
            for i in range(self.given):
                if not work:
                    return fix(exits), outs
                b, e, o = self.region(F, [(Lp.header, x) for x in work], Lp)
                exits += e
                outs += o
                work = b
            return fix(exits), outs + [Outcome('lost', x, 'loop not followed to its end', self.loop_loc(F, Lp)) for x in work[:1]]
        for i in range(5):
            # run iteration i exactly
            b, e, o = self.region(F, [(Lp.header, self.cut(S[i]))], Lp)
            b, e, o = self.last_rounds(F, Lp, S[i], b, e, o)
            runs.append((b, e, o))
            if not b:
                for _, e2, o2 in runs:
                    exits += e2
                    outs += o2
                return fix(exits), outs
            j = self.join(F, Lp, b)
            if (j is None or (S[i].exact and not j.exact)) and len(b) > 1 and self.unswitch < 3:
                r = self.loop_unswitch(F, Lp, S[i], b)
                if r is not None:
                    for _, e2, o2 in runs[:i]:
                        exits += e2
                        outs += o2
                    return fix(exits + r[0]), outs + r[1]
            if self.search is not None and (j is None or S[i].exact and not j.exact):
                r = self.searching(F, Lp, st)
                return fix(r[0]), r[1]
            if j is None:
                return self.loop_partition(F, Lp, S, runs, b, fix)
            S.append(j)
            if i >= 1:
                # accelerate from S[i-1]
                base = i - 1
                r = self.accelerate(F, Lp, S[base], S[base + 1], S[base + 2], base)
                if r is not None:
                    ge_, go, first = r
                    if not ge_ and not go and not self.inacc:
                        # from this state on every iteration leads to another one
                        go = [Outcome('bad', S[base + first], 'the loop never ends', self.loop_loc(F, Lp))]
                        self.partial.append(go[0])
                    for _, e2, o2 in runs[:base + first]:
                        exits += e2
                        outs += o2
                    self.stats['accelerated'] += 1
                    return fix(exits + ge_), outs + go
        if self.search is not None:
            r = self.searching(F, Lp, st)
            return fix(r[0]), r[1]
        # give up: everything reached so far plus an unknown remainder
        for _, e2, o2 in runs:
            exits += e2
            outs += o2
        outs.append(Outcome('lost', S[-1], 'loop not summarised', self.loop_loc(F, Lp)))
        return fix(exits), outs

    def last_rounds(self, F, Lp, S, b, e, o):
        """back edges that do not merge: those after which the loop ends at once are
        followed to its end"""
        if len(b) < 2:
            return b, e, o
        j = self.join(F, Lp, b)
        if j is not None and (j.exact or not S.exact):
            return b, e, o
        keep, e, o = [], list(e), list(o)
        for x in b:
            b2, e2, o2 = self.region(F, [(Lp.header, x.copy())], Lp)
            if b2:
                keep.append(x)
            else:
                e += e2
                o += o2
        return keep, e, o

    def searching(self, F, Lp, st):
        exits, outs = self.bounded(F, Lp, st, 3)
        iv = self.invariant(F, Lp, self.cut(st))
        if iv is None:
            outs.append(Outcome('lost', st, 'loop not summarised', self.loop_loc(F, Lp)))
        else:
            exits += iv[0]
            outs += iv[1]
        return exits, outs

    def bounded(self, F, Lp, st, n):
        """the first n iterations, path by path, without merging or forgetting"""
        exits, outs = [], []
        work = [st]
        for i in range(n):
            nxt = []
            for s in work:
                b, e, o = self.region(F, [(Lp.header, self.cut(s))], Lp)
                exits += e
                outs += o
                nxt += b
            if len(nxt) > 24:
                nxt = nxt[:24]
            work = nxt
        return exits, outs

    def invariant(self, F, Lp, S0):
        """an inductive invariant of a search loop out of templates: bounds, sums and
        differences of the loop variables, and `no occurrence before x` for the
        goal given in self.search.  -> (exits, outcomes) of the general iteration"""
        obj, pos, limit, match = self.search
        phis = self.phi_ids(F, Lp)
        backs, _, _ = self.region(F, [(Lp.header, S0)], Lp)
        var = {}

        def off(v):
            return v.off if isinstance(v, Ptr) else v

        def widen(bs):
            new = False
            for p in phis:
                v0 = S0.regs.get(p)
                if p in var:
                    for b in bs:
                        v = b.regs.get(p)
                        if type(v) is not type(v0) or (isinstance(v, Ptr) and v.obj != v0.obj):
                            return None
                    continue
                for b in bs:
                    v = b.regs.get(p)
                    if not val_same(b, v, vsubst(v0, b.elim)):
                        if type(v) is not type(v0) or not isinstance(v0, (Lin, Ptr)) or \
                                (isinstance(v, Ptr) and (v.obj != v0.obj or v.obj is None)):
                            return None
                        var[p] = fresh('h')
                        new = True
                        break
            return new

        if widen(backs) is None or not var:
            return None
        for rnd in range(4):
            # candidates
            cand = []

            def add(c):
                if c not in cand:
                    cand.append(c)
            for p, h in var.items():
                x0, H = off(S0.regs[p]), Lin.sym(h)
                add(H)
                add(H - x0)
                add(x0 - H)
                for r, v in S0.regs.items():
                    if r in var or type(v) is not type(S0.regs[p]) or not isinstance(off(v), Lin):
                        continue
                    if isinstance(v, Ptr) and v.obj != S0.regs[p].obj:
                        continue
                    if not off(v).is_const():
                        add(off(v) - H)
                for q, h2 in var.items():
                    if q > p:
                        H2, y0 = Lin.sym(h2), off(S0.regs[q])
                        for c in (H + H2 - x0 - y0, H - H2 - x0 + y0):
                            add(c)
                            add(-c)
            init = {h: off(S0.regs[p]) for p, h in var.items()}
            cand = [c for c in cand if S0.cons.entails(c.subst(init))]
            scan = []
            for p, h in var.items():
                v = S0.regs[p]
                if isinstance(v, Ptr) and v.obj != obj:
                    continue
                for x in ((Lin.sym(h),) if isinstance(v, Ptr) else (Lin.sym(h), Lin.sym(h) + pos)):
                    if S0.cons.entails(sub(pos, S0) - sub(x.subst(init), S0)):
                        scan.append(x)
            again = False
            while True:
                g = S0.copy()
                g.trail = ()
                for p, h in var.items():
                    v = g.regs[p]
                    g.regs[p] = Ptr(v.obj, Lin.sym(h), v.blk) if isinstance(v, Ptr) else Lin.sym(h)
                for c in cand:
                    g.cons = g.cons.add(c)
                g.scan = g.scan + tuple(scan)
                g.approx('loop invariant')
                try:
                    b, e, o = self.region(F, [(Lp.header, g)], Lp)
                except Lost:
                    return None
                w = widen(b)
                if w is None:
                    return None
                if w:
                    again = True
                    break
                keep = list(cand)
                sk = list(scan)
                for s in b:
                    if s.cons.feasible() is False:
                        continue
                    T = S0.copy()
                    for p in var:
                        T.regs.pop(p, None)
                    if not T.subst(s.elim):
                        pass
                    if same_state(self, s, T, phis):
                        return None
                    m = {h: off(s.regs[p]) for p, h in var.items()}
                    keep = [c for c in keep if s.cons.entails(sub(c.subst(m), s))]
                    sk = [x for x in sk if self.scanned(s, sub(x, s), sub(x.subst(m), s))]
                if len(keep) == len(cand) and len(sk) == len(scan):
                    if not scan:
                        return None
                    return e, o
                cand, scan = keep, sk
            if not again:
                return None
        return None

    def scanned(self, s, x, y):
        """no occurrence at any position in [x, y)"""
        obj, pos, limit, match = self.search
        if s.cons.entails(x - y):
            return True
        for last in (True, False):
            i = y - 1 if last else Lin.sym(fresh('at'))
            t = s.copy()
            t.cons = t.cons.add(i - x).add(y - 1 - i).add(i - sub(pos, s)).add(sub(limit, s) - i)
            t.cons = t.cons.add(y - 1 - i if last else y - 2 - i)
            if t.cons.bad or t.cons.feasible() is False:
                continue
            try:
                if assume(t, match(t, i), False):
                    return False
            except Lost:
                return False
        return True

    def loop_unswitch(self, F, Lp, S, b):
        """a condition on which the back edges differ and that may be the same
        in every iteration: analyse the loop separately with it and without"""
        known = known_syms(S)
        cand_ = []
        for x in b:
            for c in x.trail:
                if c[0] in ('ge', 'atom', 'eq') and c not in cand_ and any(cnot(c) in y.trail for y in b) and vsyms(c, set()) <= known:
                    cand_.append(c)
        for c in cand_[:3]:
            exits, outs = [], []
            self.unswitch += 1
            try:
                for cc in (c, cnot(c)):
                    for s1 in assume(self.cut(S), cc):
                        e, o = self.loop(F, Lp, self.cut(s1))
                        for x in e:
                            x[2].trail = (cc,) + x[2].trail
                        exits += e
                        outs += o
            finally:
                self.unswitch -= 1
            if not any(o.kind == 'lost' for o in outs) and all(x[2].exact for x in exits):
                return exits, outs
        return None

    def loop_partition(self, F, Lp, S, runs, b, fix):
        exits, outs = [], []
        for _, e2, o2 in runs:
            exits += e2
            outs += o2
        outs.append(Outcome('lost', b[0], 'loop with several dissimilar back edges', self.loop_loc(F, Lp)))
        return fix(exits), outs

    def loop_loc(self, F, Lp):
        for ins in F.blocks[Lp.header]:
            if ins.get('loc'):
                return locstr(ins)
        return '?'

    def cut(self, st):
        s = st.copy()
        s.trail = ()
        return s

    def phi_ids(self, F, Lp):
        return [ins['id'] for ins in F.blocks[Lp.header] if ins['op'] == 'phi']

    def loop_defs(self, F, Lp):
        r = F.loopdefs.get(Lp.header)
        if r is None:
            r = set()
            for b in Lp.blocks:
                for ins in F.blocks[b]:
                    r.add(ins['id'])
            F.loopdefs[Lp.header] = r
        return r

    def join(self, F, Lp, bs):
        """merge the states of the back edge, None when dissimilar"""
        phis = set(self.phi_ids(F, Lp))
        defs = self.loop_defs(F, Lp)
        out = []
        for s in bs:
            s = s.copy()
            for d in defs:
                if d not in phis:
                    s.regs.pop(d, None)
            s = self.gc(s)
            s = self.project(s)
            out.append(s)
        cur = out[0]
        for o in out[1:]:
            cur = self.join2(cur, o, phis)
            if cur is None:
                return None
        return cur

    def join2(self, a, b, phis):
        if set(a.mem) != set(b.mem):
            return None
        if a.frames != b.frames or a.log != b.log:
            return None
        if a.elim != b.elim:
            return None
        for k in a.mem:
            if not same_obj(a.mem[k], b.mem[k]):
                return None
        # conditions: common prefix, then one of c / not c
        n = 0
        while n < len(a.trail) and n < len(b.trail) and a.trail[n] == b.trail[n]:
            n += 1
        s = a.copy()
        s.cons = Cons()
        for e in a.cons.items():
            if b.cons.entails(e):
                s.cons = s.cons.add(e)
        for e in b.cons.items():
            if a.cons.entails(e):
                s.cons = s.cons.add(e)
        s.facts = {k: v for k, v in a.facts.items() if b.facts.get(k) == v}
        s.alls = tuple(x for x in a.alls if x in b.alls)
        s.trail = a.trail[:n]
        ra, rb = a.trail[n:], b.trail[n:]
        exact = len(ra) == 1 and len(rb) == 1 and ra[0] == cnot(rb[0])
        s.exact = a.exact and b.exact
        if not exact:
            if len(ra) == 0 and len(rb) == 0:
                pass
            else:
                s.approx('merge of loop paths')
        return s

    def gc(self, s):
        """drop stack objects no longer reachable from registers or memory"""
        reach = set()
        todo = []

        def ptrs(v):
            if isinstance(v, Ptr):
                if v.obj is not None and v.obj not in reach:
                    reach.add(v.obj)
                    todo.append(v.obj)
            elif isinstance(v, Agg):
                for x in v.f:
                    ptrs(x)
            elif isinstance(v, Term):
                for x in v.args:
                    ptrs(x)
        for f in s.frames:
            for v in f.values():
                ptrs(v)
        for k, o in s.mem.items():
            if not k.startswith('loc#') and k not in reach:
                reach.add(k)
                todo.append(k)
        while todo:
            k = todo.pop()
            o = s.mem.get(k)
            if o is None:
                continue
            if isinstance(o, Flat):
                for sz, v in o.cells.values():
                    ptrs(v)
            else:
                for w, segs in o.cols.values():
                    for lo, hi, v in segs:
                        ptrs(v)
        drop = [k for k in s.mem if k not in reach]
        if drop:
            s = s.copy()
            for k in drop:
                o = s.mem[k]
                if isinstance(o, Flat) and any(is_E(v) for sz, v in o.cells.values()):
                    continue
                del s.mem[k]
        # heap objects that were allocated and released
        dead = [k for k, o in s.mem.items() if k.startswith('heap#') and o.alive is False]
        if dead:
            used = set()
            s = s.copy()
            for f in s.frames:
                for v in f.values():
                    if isinstance(v, Ptr):
                        used.add(v.obj)
            for k, o in s.mem.items():
                if isinstance(o, Flat):
                    for sz, v in o.cells.values():
                        if isinstance(v, Ptr):
                            used.add(v.obj)
                else:
                    for w, segs in o.cols.values():
                        for lo, hi, v in segs:
                            if isinstance(v, Ptr):
                                used.add(v.obj)
            for k in dead:
                if k not in used:
                    del s.mem[k]
        return s

    # existential elimination of symbols that no longer occur in values
    def project(self, s):
        live = set()
        for f in s.frames:
            for v in f.values():
                vsyms(v, live)
        for o in s.mem.values():
            o.syms(live)
        for x in s.log:
            log_syms(x, live)
        for e in s.elim.values():
            pass
        dead = set()
        for t in s.cons.d:
            for n, _ in t:
                if '#' in n and n not in live:
                    dead.add(n)
        if not dead:
            return s
        s = s.copy()
        for d in sorted(dead):
            s = eliminate(s, d)
        return s

    def accelerate(self, F, Lp, S0, S1, S2, base):
        k = fresh('k')
        K = Lin.sym(k)
        phis = self.phi_ids(F, Lp)
        if self.trace:
            print('ACC loop', self.loop_loc(F, Lp), 'base', base)
        G = generalise(self, S0, S1, S2, K, phis, F, Lp)
        if isinstance(G, str):
            if self.trace:
                print('   no shape:', G)
            return None
        G, first, fam = G
        SB = S1 if first else S0
        basecons = SB.cons
        H = []
        alls = []

        def admit(c0, c1):
            """condition c(j) from its first two instances -> c(k-1), or None"""
            d = c1 - c0
            if not d.is_const():
                return None
            return c0, d.c

        def add_h(c0, d):
            # c(j) = c0 + d*j >= 0 for all 0<=j<k
            if d >= 0:
                return basecons.entails(c0)
            if not basecons.entails(c0 - d + first * d):
                return False
            h = c0 + Lin.sym(k, d) - d
            if h not in H:
                H.append(h)
            return True

        # first candidates from the exact iterations
        if len(S1.trail) == len(S2.trail):
            for x, y in zip(S1.trail, S2.trail):
                if x[0] == 'ge' and y[0] == 'ge':
                    a = admit(x[1], y[1])
                    if a and a[1] < 0:
                        add_h(*a)
        for rnd in range(6):
            g = G.copy()
            g.cons = G.cons.add(K - first)
            for h in H:
                g.cons = g.cons.add(h)
            g.alls = G.alls + tuple(alls)
            g.trail = ()
            if g.cons.feasible() is False:
                return None
            self.inacc += 1
            try:
                b, e, o = self.region(F, [(Lp.header, g)], Lp)
                b, e, o = self.last_rounds(F, Lp, g, b, e, o)
            except Lost as ex:
                return None
            finally:
                self.inacc -= 1
            if not b:
                if self.trace:
                    print('   no back edge from general state', [x.val for x in o])
                return None
            B = self.join(F, Lp, b)
            later = []
            if len(b) > 1 and (B is None or g.exact and not B.exact) and self.phase < 3 and not fam:
                r = self.phases(F, Lp, b, S0, k, basecons)
                if r is not None:
                    B, later = r
            if B is None:
                if self.trace:
                    print('   back edges of the general state do not merge', [(x.trail, {a: v for a, v in x.elim.items() if a == k}) for x in b])
                return None
            if fam:
                B = absorb(self, B, G, fam, K)
                if isinstance(B, str):
                    if self.trace:
                        print('   new objects:', B)
                    return None
            changed = False
            exact = True
            for c in B.trail:
                if c[0] == 'ge':
                    e0 = c[1]
                    if any(n not in (k,) and n not in known_syms(S0) for n in e0.syms()):
                        exact = False
                        continue
                    d = e0.coef(k)
                    c0 = e0 - Lin.sym(k, d)
                    prev = e0.subst({k: K - 1})
                    if d >= 0:
                        if not basecons.entails(c0 + first * d):
                            # holds for all j>=0 iff c0>=0: split off the first iteration
                            if self.trace:
                                print('   condition not entailed at base', e0)
                            return None
                        continue
                    if not g.cons.entails(prev):
                        if not add_h(c0, d):
                            if self.trace:
                                print('   condition not entailed before first iteration', e0)
                            return None
                        changed = True
                elif c[0] == 'atom':
                    key, pol = c[1], c[2]
                    sy = set()
                    for v in key[1:]:
                        vsyms(v, sy)
                    if k in sy:
                        if any(n != k and n not in known_syms(S0) for n in sy):
                            exact = False
                            continue
                        t = ksubst(key, {k: Lin.sym(QV)})
                        a = (ZERO, K, t, pol)
                        if a not in alls:
                            if first:
                                k0 = canon_key(ksubst(key, {k: ZERO}))
                                if k0 is not True and (isinstance(k0, bool) or SB.facts.get(k0[0]) != pol):
                                    if self.trace:
                                        print('   fact not established by the first iteration', key)
                                    return None
                            # the quantified fact must not be trivially established elsewhere
                            if lookup_range(g, t, K):
                                continue
                            alls.append(a)
                            changed = True
                    else:
                        if SB.facts.get(key) != pol and not any(match_key(t2, key) not in (None, True) for _, _, t2, _ in S0.alls):
                            if any('#' in n and n not in known_syms(S0) for n in sy):
                                exact = False
                                continue
                            if self.trace:
                                print('   new invariant fact', key)
                            return None
                elif c[0] == 'eq':
                    if self.trace:
                        print('   equality on the back edge', c)
                    return None
            if changed:
                continue
            # inductive?
            T = G.copy()
            T = subst_state(T, {k: K + 1})
            msg = same_state(self, B, T, phis)
            if msg:
                if self.trace:
                    print('   not inductive:', msg)
                return None
            if not exact or not B.exact:
                for x in e:
                    x[2].approx('loop conditions not captured')
                for x in o:
                    x.st.approx('loop conditions not captured')
            if self.trace:
                print('   OK H=', H, 'alls=', alls)
            e, o = list(e), list(o)
            self.phase += 1
            try:
                for x in later:
                    if self.trace:
                        print('   NEXT PHASE')
                    e2, o2 = self.loop(F, Lp, x)
                    e += e2
                    o += o2
            finally:
                self.phase -= 1
            return e, o, first
        return None

    def phases(self, F, Lp, b, S0, k, base):
        """back edges that differ on a condition that holds up to some iteration:
        -> (the merged edges on which it holds, the others)"""
        known = known_syms(S0) | {k}
        seen = []
        for x in b:
            for c in x.trail:
                if c[0] != 'ge' or c in seen or c[1].coef(k) >= 0 or not set(c[1].syms()) <= known:
                    continue
                seen.append(c)
                no = [y for y in b if y.cons.entails(sub(-c[1] - 1, y))]
                yes = [y for y in b if not any(y is z for z in no)]
                if not no or not yes:
                    continue
                if not all(y.cons.entails(sub(c[1], y)) for y in yes):
                    continue
                if not base.entails(c[1].subst({k: ZERO})):
                    continue
                B = self.join(F, Lp, yes)
                if B is not None:
                    return B, no
        return None


def lookup_range(g, t, K):
    return False


def known_syms(S):
    acc = set()
    for f in S.frames:
        for v in f.values():
            vsyms(v, acc)
    for o in S.mem.values():
        o.syms(acc)
    for t in S.cons.d:
        for n, _ in t:
            acc.add(n)
    for k in S.facts:
        for v in k[1:]:
            vsyms(v, acc)
    for lo, hi, kk, p in S.alls:
        vsyms(lo, acc)
        vsyms(hi, acc)
        for v in kk[1:]:
            vsyms(v, acc)
    return acc


def log_syms(x, acc):
    if isinstance(x, tuple):
        for y in x:
            log_syms(y, acc)
    elif isinstance(x, (Lin, Ptr, Term, BInt, Agg)):
        vsyms(x, acc)


def sub(v, st):
    return vsubst(v, st.elim) if st.elim else v


def subst_state(s, m):
    s = s.copy()
    el = s.elim
    if not s.subst(m):
        return None
    s.elim = el
    return s


def eliminate(s, d):
    """existentially quantify symbol d: a first-failure pattern becomes an 'all' atom,
    otherwise facts mentioning it are dropped (approximation) and it is projected from the constraints"""
    D = Lin.sym(d)
    mention = [k for k in s.facts if any_sym(k, d) and k[0] != 'quot']
    alls = [a for a in s.alls if d in lin_syms(a)]
    if len(mention) == 1 and s.facts[mention[0]] is not None:
        key = mention[0]
        pol = s.facts[key]
        t = ksubst(key, {d: Lin.sym(QV)})
        lows = [e for e in s.cons.items() if e.coef(d) > 0]
        ups = [e for e in s.cons.items() if e.coef(d) < 0]
        if len(alls) == 1:
            lo, hi, tm, p2 = alls[0]
            if hi == D and p2 == (not pol) and tm == t and all(e == D - lo or s_wo(s, d).entails(e.subst({d: lo})) for e in lows):
                # exists d in [lo,U): not P(d), forall j in [lo,d): P(j)
                u = [e for e in ups]
                if len(u) == 1 and u[0].coef(d) == -1:
                    U = u[0] + D + 1
                    body = ksubst(t, {QV: Lin.sym(RV)})
                    if p2:
                        nk = ('all', lo, U, KeyV(body))
                        s2 = s.copy()
                        del s2.facts[key]
                        s2.alls = tuple(a for a in s2.alls if a not in alls)
                        s2.cons = s_wo(s, d)
                        s2.facts[nk] = False
                        s2.trail = tuple(c for c in s2.trail if not cond_mentions(c, d)) + (('atom', nk, False),)
                        return s2
    if mention or alls:
        s = s.copy()
        for k in mention:
            del s.facts[k]
        s.alls = tuple(a for a in s.alls if a not in alls)
        s.approx('dead facts about %s dropped' % d)
    s = s.copy()
    for k in [k for k in s.facts if any_sym(k, d)]:
        del s.facts[k]
    s.cons = fm_project(s.cons, d)
    s.trail = tuple(c for c in s.trail if not cond_mentions(c, d))
    return s


def cond_mentions(c, d):
    return d in vsyms(c, set()) if not isinstance(c, bool) else False


def s_wo(s, d):
    return fm_project(s.cons, d)


def any_sym(key, d):
    acc = set()
    for v in key[1:]:
        vsyms(v, acc)
    return d in acc


def lin_syms(a):
    acc = set()
    vsyms(a[0], acc)
    vsyms(a[1], acc)
    for v in a[2][1:]:
        vsyms(v, acc)
    return acc


def fm_project(cons, d):
    P, N, out = [], [], Cons()
    for e in cons.items():
        k = e.coef(d)
        if k > 0:
            P.append((e, k))
        elif k < 0:
            N.append((e, -k))
        else:
            out = out.add(e)
    for p, a in P:
        for n, b in N:
            out = out.add(p * b + n * a)
    return out


# ---------------------------------------------------------------- comparison of states
def same_obj(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, Flat):
        return a.cells == b.cells and a.alive == b.alive and a.size == b.size
    return a.cols == b.cols and a.alive == b.alive and a.n == b.n and a.stride == b.stride


def val_same(st, a, b):
    if a is b or a == b:
        return True
    if isinstance(a, Ptr) and isinstance(b, Ptr) and (end_of(st, a) or end_of(st, b)):
        return decide(st, peq(st, a, b)) is True
    c = veq(a, b)
    return decide(st, c) is True


def segs_same(st, A, B):
    """provably equal contents; boundaries compared by overlap"""
    i = j = 0
    A = [s for s in A if not st.cons.entails(s[0] - s[1])]
    B = [s for s in B if not st.cons.entails(s[0] - s[1])]
    if len(A) == len(B) and all(st.cons.entails_eq(x[0] - y[0]) and st.cons.entails_eq(x[1] - y[1]) for x, y in zip(A, B)):
        ok = True
        for x, y in zip(A, B):
            if not tmpl_same(st, x[0], x[1], x[2], y[2]):
                ok = False
                break
        if ok:
            return True
    for lo, hi, v in A:
        for lo2, hi2, w in B:
            iv = Lin.sym('@c')
            cs = st.cons.add(iv - lo).add(hi - 1 - iv).add(iv - lo2).add(hi2 - 1 - iv)
            if cs.bad or cs.feasible() is False:
                continue
            t = st.copy()
            t.cons = cs
            if not val_same(t, at(v, iv), at(w, iv)):
                return False
    return True


def tmpl_same(st, lo, hi, v, w):
    if v == w:
        return True
    iv = Lin.sym('@c')
    t = st.copy()
    t.cons = st.cons.add(iv - lo).add(hi - 1 - iv)
    if t.cons.feasible() is False:
        return True
    return val_same(t, at(v, iv), at(w, iv))


def same_state(eng, B, T, phis):
    """B (result of the body) equals T under B's constraints; '' when equal"""
    for f, g in zip(B.frames, T.frames):
        for k in f:
            if k in g:
                if not val_same(B, f[k], g[k]):
                    return 'register %s: %r vs %r' % (k, f[k], g[k])
    bm = {k for k in B.mem}
    for k in bm | set(T.mem):
        a, b = B.mem.get(k), T.mem.get(k)
        if a is None or b is None:
            if k.startswith('@'):
                continue
            return 'object %s on one side only' % k
        if a is b:
            continue
        if type(a) is not type(b):
            return 'object %s changed representation' % k
        if isinstance(a, Flat):
            if a.alive != b.alive:
                return 'object %s liveness' % k
            for off in set(a.cells) | set(b.cells):
                x, y = a.cells.get(off), b.cells.get(off)
                if x is None or y is None:
                    if (x or y)[1] is RAW:
                        continue
                    return '%s+%d on one side' % (k, off)
                if x[0] != y[0] or not val_same(B, x[1], y[1]):
                    return '%s+%d: %r vs %r' % (k, off, x, y)
        else:
            if a.mode != b.mode or a.stride != b.stride or not B.cons.entails_eq(a.n - b.n):
                return 'array %s shape' % k
            if isinstance(a.alive, bool) and isinstance(b.alive, bool):
                if a.alive != b.alive:
                    return 'array %s liveness' % k
            else:
                x = a.alive if not isinstance(a.alive, bool) else ((ZERO, a.n, ONE if a.alive else ZERO),)
                y = b.alive if not isinstance(b.alive, bool) else ((ZERO, b.n, ONE if b.alive else ZERO),)
                if not segs_same(B, x, y):
                    return 'family %s liveness %r vs %r' % (k, x, y)
            for c in set(a.cols) | set(b.cols):
                x, y = a.cols.get(c), b.cols.get(c)
                n = a.n * a.per if a.mode == 'chk' else a.n
                xs = x[1] if x else ((ZERO, n, RAW),)
                ys = y[1] if y else ((ZERO, n, RAW),)
                if not segs_same(B, xs, ys):
                    return 'array %s column %d: %r vs %r' % (k, c, xs, ys)
    if len(B.log) != len(T.log) or any(x != y for x, y in zip(B.log, T.log)):
        return 'effects differ'
    return ''


# ---------------------------------------------------------------- generalisation
class NoShape(Exception):
    pass


def gen_lin(a, b, c, K):
    d = b - a
    if not d.is_const() or c - b != d:
        raise NoShape('%r, %r, %r' % (a, b, c))
    return a + K * d.c


def gen_val(a, b, c, K):
    if len(GENCTX) == 4:
        # only the iterations from the first on have to fit
        try:
            return gen_val1(a, b, c, K)
        except NoShape:
            return gen_val1(extrap(b, c), b, c, K)
    return gen_val1(a, b, c, K)


def gen_val1(a, b, c, K):
    if a is None or b is None or c is None:
        if a is b and b is c:
            return None
        raise NoShape('missing value')
    if isinstance(a, Special) or isinstance(b, Special) or isinstance(c, Special):
        if a is b and b is c:
            return a
        raise NoShape('%r, %r, %r' % (a, b, c))
    if type(b) is not type(c) or type(a) is not type(b):
        raise NoShape('%r, %r, %r' % (a, b, c))
    if a == b == c:
        return a
    if isinstance(a, Lin):
        return gen_lin(a, b, c, K)
    if isinstance(a, Ptr) and GENCTX and not (a.obj == b.obj == c.obj):
        # a sentinel seen as the end of a family of nodes
        for x in reps(GENCTX[0], a, (b, c)):
            for y in reps(GENCTX[1], b, (a, c)):
                for z in reps(GENCTX[2], c, (a, b)):
                    if x.obj == y.obj == z.obj:
                        try:
                            return gen_val(x, y, z, K)
                        except NoShape:
                            pass
    if isinstance(a, Ptr):
        if a.obj != b.obj or b.obj != c.obj or (a.blk is None) != (b.blk is None):
            raise NoShape('%r, %r, %r' % (a, b, c))
        return Ptr(a.obj, gen_lin(a.off, b.off, c.off, K), gen_lin(a.blk, b.blk, c.blk, K) if a.blk is not None else None)
    if isinstance(a, Term):
        if a.src != b.src or b.src != c.src or len(a.args) != len(b.args) or len(b.args) != len(c.args):
            raise NoShape('%r, %r, %r' % (a, b, c))
        return Term(a.src, [gen_val(x, y, z, K) for x, y, z in zip(a.args, b.args, c.args)], a.bits)
    raise NoShape('%r, %r, %r' % (a, b, c))


GENCTX = []


def reps(S, p, others):
    """the ways of writing a pointer in state S"""
    out = [p]
    if p.blk is None:
        for q in others:
            if q.blk is None:
                continue
            o = S.mem.get(q.obj)
            for i, t in getattr(o, 'ends', ()):
                if t.obj == p.obj and t.blk is None:
                    r = Ptr(q.obj, p.off - t.off, i)
                    if r not in out:
                        out.append(r)
    return out


def gen_segs(eng, S0, S1, S2, s0, s1, s2, K):
    if s0 == s1 == s2:
        return s0
    s1 = [x for x in s1 if not S1.cons.entails(x[0] - x[1])]
    s2 = [x for x in s2 if not S2.cons.entails(x[0] - x[1])]
    if len(s1) == len(s2):
        try:
            out = []
            for (a1, b1, v1), (a2, b2, v2) in zip(s1, s2):
                da, db = a2 - a1, b2 - b1
                if not da.is_const() or not db.is_const():
                    raise NoShape('boundaries %r %r' % ((a1, b1), (a2, b2)))
                a0, b0 = a1 - da.c, b1 - db.c
                ka, kb = a0 + K * da.c, b0 + K * db.c
                out.append((ka, kb, gen_tmpl(S1, S2, (a1, b1, v1), (a2, b2, v2), K)))
            return tuple(out)
        except NoShape:
            pass
    # align with empty segments inserted in s1
    r = align(eng, S1, S2, s1, s2, K)
    if r is None:
        raise NoShape('segments %r | %r | %r' % (s0, s1, s2))
    return r


def gen_tmpl(S1, S2, x1, x2, K):
    a1, b1, v1 = x1
    a2, b2, v2 = x2
    if v1 == v2:
        return v1
    one1 = (b1 - a1) == ONE
    one2 = (b2 - a2) == ONE
    if one1 and not one2:
        if at(v2, a1) == at(v1, a1):
            return v2
    if one2 and not one1:
        if at(v1, a2) == at(v2, a2):
            return v1
    if one1 and one2:
        u, w = at(v1, a1), at(v2, a2)
        # sliding cell: value affine in k
        return gen_val(extrap(u, w), u, w, K)
    return gen_val(extrap(v1, v2), v1, v2, K)


def extrap(u, w):
    """the value one step before u, given the step u -> w"""
    if type(u) is not type(w):
        raise NoShape('%r then %r' % (u, w))
    if u == w:
        return u
    if isinstance(u, Lin):
        d = w - u
        if not d.is_const():
            raise NoShape('%r then %r' % (u, w))
        return u - d.c
    if isinstance(u, Ptr):
        if u.obj != w.obj or (u.blk is None) != (w.blk is None):
            raise NoShape('%r then %r' % (u, w))
        return Ptr(u.obj, extrap(u.off, w.off), extrap(u.blk, w.blk) if u.blk is not None else None)
    if isinstance(u, Term):
        if u.src != w.src or len(u.args) != len(w.args):
            raise NoShape('%r then %r' % (u, w))
        return Term(u.src, [extrap(a, b) for a, b in zip(u.args, w.args)], u.bits)
    raise NoShape('%r then %r' % (u, w))


def align(eng, S1, S2, s1, s2, K):
    return None


def generalise(eng, S0, S1, S2, K, phis, F, Lp):
    if S1.elim != S0.elim or S2.elim != S0.elim:
        d1 = {k: v for k, v in S1.elim.items() if k not in S0.elim}
        d2 = {k: v for k, v in S2.elim.items() if k not in S0.elim}
        kn = known_syms(S0)
        if any(k in kn for k in list(d1) + list(d2)):
            return 'equalities assumed in the body'
    G = S0.copy()
    fam = None
    try:
        if len(S0.frames) != len(S1.frames):
            raise NoShape('frames')
        f = fold_new(eng, S0, S1, S2)
        if f is not None:
            S0, S1, S2, fam = f
        GENCTX[:] = [S0, S1, S2] + ([fam] if fam else [])
        fr = []
        defs = eng.loop_defs(F, Lp)
        ph = set(phis)
        for i, (f0, f1, f2) in enumerate(zip(S0.frames, S1.frames, S2.frames)):
            top = i == len(S0.frames) - 1
            f = {}
            for k, v in f0.items():
                if top and k in defs and k not in ph:
                    continue
                if k in f1 and k in f2:
                    f[k] = gen_val(v, f1[k], f2[k], K)
                else:
                    f[k] = v
            fr.append(f)
        G.frames = fr
        mem = {}
        for k in set(S0.mem) | set(S1.mem) | set(S2.mem):
            a, b, c = S0.mem.get(k), S1.mem.get(k), S2.mem.get(k)
            if k.startswith('@') and (a is None or b is None or c is None):
                mem[k] = a or b or c
                continue
            if a is None and b is not None and c is not None:
                raise NoShape('object %s created in the body' % k)
            if a is None or b is None or c is None:
                raise NoShape('object %s created in the body' % k)
            mem[k] = gen_obj(eng, S0, S1, S2, a, b, c, K)
        G.mem = mem
        if not (S0.log == S1.log == S2.log):
            raise NoShape('effects in the body')
    except NoShape as ex:
        return str(ex)
    finally:
        GENCTX[:] = []
    # agreement with the base: k = 0, or 1 when the body allocates
    first = 1 if fam else 0
    SB = S1 if fam else S0
    T = subst_state(G, {K.t[0][0]: L(first)})
    msg = same_state(eng, SB, T, phis)
    if msg:
        return 'base: ' + msg
    G.cons = SB.cons
    G.facts = dict(SB.facts)
    G.alls = SB.alls
    return G, first, fam


def map_ptrs(s, f):
    """rewrite every stored pointer with f(pointer, lower, upper) (bounds of IDX in templates, or None)"""
    def mv(v, lo=None, hi=None):
        if isinstance(v, Ptr):
            return f(v, lo, hi)
        if isinstance(v, Agg):
            return Agg(mv(x, lo, hi) for x in v.f)
        if isinstance(v, Term) and any(isinstance(a, Ptr) for a in v.args):
            return Term(v.src, [mv(a, lo, hi) for a in v.args], v.bits)
        return v

    def ml(x):
        return tuple(ml(y) for y in x) if isinstance(x, tuple) else mv(x)
    s = s.copy()
    s.frames = [{k: mv(v) for k, v in fr.items()} for fr in s.frames]
    mem = {}
    for k, o in s.mem.items():
        if isinstance(o, Flat):
            cells = {off: (sz, mv(v)) for off, (sz, v) in o.cells.items()}
            if any(cells[x][1] is not o.cells[x][1] for x in cells):
                o = o.copy(cells=cells)
        else:
            cols = {}
            ch = False
            for c, (w, segs) in o.cols.items():
                n2 = tuple((lo, hi, mv(v, lo, hi)) for lo, hi, v in segs)
                if any(x[2] is not y[2] for x, y in zip(segs, n2)):
                    ch = True
                    segs = n2
                cols[c] = (w, segs)
            ends = tuple((i, mv(t)) for i, t in o.ends)
            if ch or any(x[1] is not y[1] for x, y in zip(ends, o.ends)):
                o = o.copy(cols=cols, ends=ends)
        mem[k] = o
    s.mem = mem
    s.log = tuple(ml(x) for x in s.log)
    return s


def new_objects(A, B):
    return [k for k, o in B.mem.items() if k not in A.mem and o.kind == 'heap']


def rename_obj(s, table):
    """table: object -> (family, index)"""
    def f(p, lo, hi):
        t = table.get(p.obj)
        return p if t is None or p.blk is not None else Ptr(t[0], p.off, t[1])
    return map_ptrs(s, f)


def fold_new(eng, S0, S1, S2):
    """one object allocated per iteration becomes a member of a family"""
    n1, n2 = new_objects(S0, S1), new_objects(S0, S2)
    if not n1 and not n2:
        return None
    h1 = n1[0] if len(n1) == 1 else None
    n2 = [k for k in n2 if k != h1]
    if h1 is None or len(n2) != 1 or h1 not in S2.mem:
        raise NoShape('objects %r then %r created in the body' % (n1, n2))
    h2 = n2[0]
    objs = [S1.mem[h1], S2.mem[h1], S2.mem[h2]]
    if any(not isinstance(o, Flat) or o.alive is not True or not isinstance(o.size, int) for o in objs) or len({(o.size, o.tag) for o in objs}) != 1:
        raise NoShape('objects created in the body are not uniform')
    size, tag = objs[0].size, objs[0].tag
    M = fresh('fam')
    I = Lin.sym(IDX)
    cols, ends = {}, []
    offs = set()
    for o in objs:
        offs |= set(o.cells)
    for off in offs:
        cs = [o.cells.get(off) for o in objs]
        if any(c is None for c in cs) or len({c[0] for c in cs}) != 1:
            raise NoShape('node cell %d' % off)
        w = cs[0][0]
        a, b1, b2 = (c[1] for c in cs)
        if isinstance(a, Ptr) and b1 == Ptr(h2, b1.off if isinstance(b1, Ptr) else ZERO) and b2 == a:
            t = Ptr(M, b1.off, I + 1)
            e = ('hi', Ptr(a.obj, a.off - b1.off, a.blk))
            if e not in ends:
                ends.append(e)
        elif isinstance(a, Ptr) and a == b1 and isinstance(b2, Ptr) and b2.obj == h1:
            t = Ptr(M, b2.off, I - 1)
            e = ('lo', Ptr(a.obj, a.off - b2.off, a.blk))
            if e not in ends:
                ends.append(e)
        elif a == b1:
            t = anti(a, b2, ZERO)
            if t is None:
                if isinstance(a, Special) or isinstance(b2, Special):
                    raise NoShape('node cell %d: %r then %r' % (off, a, b2))
                raise NoShape('node cell %d: %r then %r' % (off, a, b2))
        else:
            raise NoShape('node cell %d: %r, %r, %r' % (off, a, b1, b2))
        cols[off] = (w, t)
    if len([e for e in ends if e[0] == 'lo']) > 1 or len([e for e in ends if e[0] == 'hi']) > 1:
        raise NoShape('ends of the family: %r' % (ends,))

    def build(S, table, n):
        S = rename_obj(S, table)
        for h in table:
            del S.mem[h]
        nl = L(n)
        en = tuple((L(-1) if e[0] == 'lo' else nl, e[1]) for e in ends)
        S.mem[M] = Arr('heap', 'fam', size, nl, {c: (w, ((ZERO, nl, t),)) for c, (w, t) in cols.items()}, True, tag, bsize=L(size), ends=en)
        return S
    S0 = build(S0, {}, 0)
    S1 = build(S1, {h1: (M, ZERO)}, 1)
    S2 = build(S2, {h1: (M, ZERO), h2: (M, ONE)}, 2)
    return S0, S1, S2, M


def absorb(eng, B, G, M, K):
    """the object allocated by iteration K becomes member K of the family"""
    nw = new_objects(G, B)
    if len(nw) != 1:
        return 'objects %r created in the general iteration' % (nw,)
    h = nw[0]
    o, m = B.mem[h], B.mem[M]
    if not isinstance(o, Flat) or o.alive is not True or o.size != m.stride or o.tag != m.tag or m.alive is not True:
        return 'not a uniform object'
    bad = []

    def chk(p, lo, hi):
        if p.obj == M:
            cs = B.cons
            if lo is not None:
                i = Lin.sym(IDX)
                cs = cs.add(i - lo).add(hi - 1 - i)
            e = p.blk - K
            if not cs.bad and cs.sat_with(e, -e) is not False:
                bad.append(p)
        return p
    map_ptrs(B, chk)
    if bad:
        return 'a pointer to the former end remains: %r' % bad
    s = rename_obj(B, {h: (M, K)})
    del s.mem[h]
    m = s.mem[M]
    cells = rename_obj_cells(o, h, M, K)
    cols = {}
    for c in set(m.cols) | set(cells):
        w, segs = m.cols.get(c) or (cells[c][0], ((ZERO, m.n, RAW),))
        x = cells.get(c, (w, RAW))
        if x[0] != w:
            return 'cell %d' % c
        cols[c] = (w, segs + ((K, K + 1, x[1]),))
    k = K.t[0][0]
    ends = tuple((i.subst({k: K + 1}), t) for i, t in G.mem[M].ends)
    s.mem[M] = m.copy(n=K + 1, cols=cols, ends=ends)
    return s


def rename_obj_cells(o, h, M, K):
    return {off: (sz, Ptr(M, v.off, K) if isinstance(v, Ptr) and v.obj == h and v.blk is None else v) for off, (sz, v) in o.cells.items()}


def gen_obj(eng, S0, S1, S2, a, b, c, K):
    if a is b and b is c:
        return a
    # a flat object turned into an array by the body
    if isinstance(a, Flat) and isinstance(b, Arr) and isinstance(c, Arr):
        t = S0.copy()
        t.mem = dict(t.mem)
        t.mem['@@tmp'] = a
        try:
            a = eng.to_arr(t, '@@tmp', a, b.stride)
        except Lost:
            raise NoShape('representation change')
    if isinstance(a, Arr) and a.stride is None and isinstance(b, Arr) and b.stride is not None:
        n = a.n.divides(b.stride)
        if n is None:
            raise NoShape('stride')
        a = a.copy(stride=b.stride, n=n)
    if type(a) is not type(b) or type(b) is not type(c):
        raise NoShape('representation change')
    if isinstance(a, Flat):
        if not (a.alive == b.alive == c.alive):
            raise NoShape('liveness changes')
        cells = {}
        for off in set(a.cells) | set(b.cells) | set(c.cells):
            x, y, z = a.cells.get(off), b.cells.get(off), c.cells.get(off)
            if x is None and y is not None and z is not None and y[1] is RAW and z[1] is RAW:
                x = y
            if x is None or y is None or z is None or not (x[0] == y[0] == z[0]):
                raise NoShape('cell %d' % off)
            cells[off] = (x[0], gen_val(x[1], y[1], z[1], K))
        return a.copy(cells=cells)
    if a.mode != b.mode or b.mode != c.mode or a.stride != b.stride or b.stride != c.stride:
        raise NoShape('array shape')
    n = gen_lin(a.n, b.n, c.n, K)
    per = a.per
    cols = {}
    for co in set(a.cols) | set(b.cols) | set(c.cols):
        def get(o):
            x = o.cols.get(co)
            if x is not None:
                return x
            w = (b.cols.get(co) or c.cols.get(co) or a.cols.get(co))[0]
            m = o.n * o.per if o.mode == 'chk' else o.n
            return (w, ((ZERO, m, RAW),))
        x, y, z = get(a), get(b), get(c)
        cols[co] = (x[0], gen_segs(eng, S0, S1, S2, x[1], y[1], z[1], K))
    alive = a.alive
    if not (isinstance(a.alive, bool) and a.alive == b.alive == c.alive):
        f = lambda o: o.alive if not isinstance(o.alive, bool) else ((ZERO, o.n, ONE if o.alive else ZERO),)
        if isinstance(a.alive, bool) and isinstance(b.alive, bool):
            raise NoShape('liveness changes')
        alive = gen_segs(eng, S0, S1, S2, f(a), f(b), f(c), K)
    if len(a.ends) != len(b.ends) or len(b.ends) != len(c.ends):
        raise NoShape('ends of a family')
    ends = tuple((gen_lin(x[0], y[0], z[0], K), gen_val(x[1], y[1], z[1], K)) for x, y, z in zip(a.ends, b.ends, c.ends))
    return a.copy(n=n, cols=cols, alive=alive, ends=ends)
