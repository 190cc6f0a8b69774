"""Contracts: an object of the class under analysis as the sequence it holds.

The members of the class that have been verified on their own are replaced by
their specification; what is left to analyse is the code that uses them.  The
representation is out of reach: code that looks at it directly is 'lost'."""
from .chain import *

MID = BIG
SEQ, LO, HI = 1 << 20, (1 << 20) + 8, (1 << 20) + 16


def fields(st, p, what):
    p = resolve(st, p) if isinstance(p, Ptr) else p
    if not isinstance(p, Ptr) or p.obj not in st.mem or p.off != ZERO:
        raise Lost('%s of %r' % (what, p))
    o = st.mem[p.obj]
    if not isinstance(o, Flat) or SEQ not in o.cells:
        if isinstance(o, Flat) and o.tag == 'dead':
            raise Bad('%s of an object that is not alive' % what)
        raise Lost('%s of an object whose contents are not known' % what)
    c = o.cells
    return c[LO][1], c[HI][1], c[SEQ][1].obj, o, p.obj


def put(st, name, s, lo, hi):
    o = st.mem[name]
    st.mem[name] = o.copy(cells={SEQ: (8, Ptr(s)), LO: (8, L(lo)), HI: (8, L(hi))}, tag='opaque')


def empty_seq(st):
    s = fresh('seq')
    st.mem[s] = Arr('ghost', 'lin', 8, L(BIG * 4), {0: (8, ((ZERO, L(BIG * 4), RAW),))}, True)
    return s


def make(st, name, kind='ext', least=0, size=64):
    n = Lin.sym(name + '.size')
    st.cons = st.cons.add(n - least).add(BIG - n)
    s = name + '.seq'
    st.mem[s] = Arr('ghost', 'lin', 8, L(BIG * 4), {0: (8, ((ZERO, L(MID), RAW), (L(MID), n + MID, Term(name, (I - MID,), 'E')), (n + MID, L(BIG * 4), RAW)))}, True)
    st.mem[name] = Flat(kind, size, {})
    put(st, name, s, MID, n + MID)
    return n


def unmade(st, name, size=64):
    st.mem[name] = Flat('ext', size, {}, tag='opaque')


def writable(o):
    if o.kind == 'ro':
        raise Bad('an operation on a const object changes it')


def m_default(eng, st, args, ins):
    p = args[0]
    o = eng.obj(st, p, 'construction')
    if not isinstance(o, Flat) or p.off != ZERO:
        raise Lost('construction of a subobject')
    if SEQ in o.cells:
        raise Bad('construction of an object that is already alive')
    put(st, p.obj, empty_seq(st), MID, MID)
    return RAW


def m_dtor(eng, st, args, ins):
    lo, hi, s, o, n = fields(st, args[0], 'destruction')
    wipe(eng, st, s, lo, hi)
    st.mem[n] = o.copy(cells={}, tag='dead')
    return RAW


def wipe(eng, st, s, lo, hi):
    a = st.mem[s]
    st.mem[s] = a.copy(cols={0: (8, eng.seg_put(st, a.cols[0][1], lo, hi, [(lo, hi, RAW)]))})


def m_clear(eng, st, args, ins):
    lo, hi, s, o, n = fields(st, args[0], 'clear')
    writable(o)
    wipe(eng, st, s, lo, hi)
    put(st, n, s, MID, MID)
    return RAW


def push(back, move):
    def m(eng, st, args, ins):
        lo, hi, s, o, n = fields(st, args[0], 'push')
        writable(o)
        v = E_get(eng, st, args[1], 'inserting')
        if v is MOVED:
            raise Bad('a moved-from value is inserted')
        eng.store(st, Ptr(s, (hi if back else lo - 1) * 8), 8, v)
        if move:
            eng.store(st, args[1], 8, MOVED)
        if back:
            put(st, n, s, lo, hi + 1)
        else:
            put(st, n, s, lo - 1, hi)
        return RAW
    return m


def pop(front):
    def m(eng, st, args, ins):
        lo, hi, s, o, n = fields(st, args[0], 'pop')
        writable(o)
        d = decide(st, ge(hi - lo - 1))
        if d is None:
            raise Fork(ge(hi - lo - 1))
        if d is False:
            return RAW
        eng.store(st, Ptr(s, (lo if front else hi - 1) * 8), 8, RAW)
        put(st, n, s, lo + 1 if front else lo, hi if front else hi - 1)
        return RAW
    return m


def m_size(eng, st, args, ins):
    lo, hi, s, o, n = fields(st, args[0], 'size')
    return hi - lo


def m_empty(eng, st, args, ins):
    lo, hi, s, o, n = fields(st, args[0], 'empty')
    return BInt(eq0(hi - lo))


def m_index(eng, st, args, ins):
    lo, hi, s, o, n = fields(st, args[0], 'indexing')
    i = eng.norm(st, args[1], 64, False)
    Mem.require(st, ge(i), 'element access outside the sequence')
    Mem.require(st, ge(hi - lo - 1 - i), 'element access outside the sequence')
    return Ptr(s, (lo + i) * 8)


def end(front):
    def m(eng, st, args, ins):
        lo, hi, s, o, n = fields(st, args[0], 'element access')
        Mem.require(st, ge(hi - lo - 1), 'element access in an empty sequence')
        return Ptr(s, (lo if front else hi - 1) * 8)
    return m


def contents(ck, o, name, runs, what):
    """the object holds exactly the runs"""
    for o1, r in ck.fork(o, lambda st: fields(st, Ptr(name), what)):
        lo, hi, s, ob, n = r
        total = ZERO
        for c, g in runs:
            total = total + c
        ck.eq(o1, hi - lo, o1.st.L(total), 'the size of ' + what)
        ck.seq(o1, o1.st.mem[s].cols[0][1], lo, [(o1.st.L(c), g) for c, g in runs], 'contents of ' + what)


def temporaries(ck, o):
    for k, ob in o.st.mem.items():
        if ob.kind == 'stack' and isinstance(ob, Flat) and ob.alive and SEQ in ob.cells:
            ck.fail(o, 'a temporary object is not destroyed', 'life')
