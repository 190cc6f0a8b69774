"""queue: Q01"""
from ..spec import *

BIG = 1 << 40
I = Lin.sym(IDX)


class Ghost:
    """an opaque container as the sequence it holds: cells lo..hi of a ghost array"""
    def fields(self, eng, st, p, what):
        v = eng.load(st, p, 8)
        if v is RAW:
            raise Bad('%s of a container that is not alive' % what)
        if v is MOVED:
            raise Bad('%s of a moved-from container' % what)
        return eng.load(st, p.plus(8), 8), eng.load(st, p.plus(16), 8), v.obj

    def put(self, eng, st, p, obj, lo, hi):
        eng.store(st, p, 8, Ptr(obj) if isinstance(obj, str) else obj)
        eng.store(st, p.plus(8), 8, lo)
        eng.store(st, p.plus(16), 8, hi)

    def new(self, st, segs):
        n = fresh('seq')
        st.mem[n] = Arr('ghost', 'lin', 8, L(BIG * 4), {0: (8, segs)}, True)
        return n


G = Ghost()
MID = L(BIG)


def m_default(eng, st, args, ins):
    E_raw(eng, st, args[0])
    G.put(eng, st, args[0], G.new(st, ((ZERO, L(BIG * 4), RAW),)), MID, MID)
    return RAW


def m_copy(eng, st, args, ins):
    E_raw(eng, st, args[0])
    lo, hi, s = G.fields(eng, st, args[1], 'copy')
    G.put(eng, st, args[0], G.new(st, st.mem[s].cols[0][1]), lo, hi)
    return RAW


def m_move(eng, st, args, ins):
    E_raw(eng, st, args[0])
    lo, hi, s = G.fields(eng, st, args[1], 'move')
    G.put(eng, st, args[0], s, lo, hi)
    eng.store(st, args[1], 8, MOVED)
    return RAW


def m_dtor(eng, st, args, ins):
    v = eng.load(st, args[0], 8)
    if v is RAW:
        raise Bad('destruction of a container that is not alive')
    eng.store(st, args[0], 8, RAW)
    return RAW


def m_size(eng, st, args, ins):
    lo, hi, s = G.fields(eng, st, args[0], 'size')
    return hi - lo


def m_empty(eng, st, args, ins):
    lo, hi, s = G.fields(eng, st, args[0], 'empty')
    return BInt(eq0(hi - lo))


def need(st, lo, hi, what):
    Mem.require(st, ge(hi - lo - 1), '%s of an empty container' % what)


def m_front(eng, st, args, ins):
    lo, hi, s = G.fields(eng, st, args[0], 'front')
    need(st, lo, hi, 'front')
    return Ptr(s, lo * 8)


def m_back(eng, st, args, ins):
    lo, hi, s = G.fields(eng, st, args[0], 'back')
    need(st, lo, hi, 'back')
    return Ptr(s, hi * 8 - 8)


def push(back, move):
    def m(eng, st, args, ins):
        lo, hi, s = G.fields(eng, st, args[0], 'push')
        v = E_get(eng, st, args[1], 'inserting')
        if v is MOVED:
            raise Bad('a moved-from value is inserted')
        eng.store(st, Ptr(s, (hi if back else lo - 1) * 8), 8, v)
        if move:
            eng.store(st, args[1], 8, MOVED)
        if back:
            eng.store(st, args[0].plus(16), 8, hi + 1)
        else:
            eng.store(st, args[0].plus(8), 8, lo - 1)
        return RAW
    return m


def pop(front):
    def m(eng, st, args, ins):
        lo, hi, s = G.fields(eng, st, args[0], 'pop')
        need(st, lo, hi, 'pop')
        eng.store(st, Ptr(s, (lo if front else hi - 1) * 8), 8, RAW)
        if front:
            eng.store(st, args[0].plus(8), 8, lo + 1)
        else:
            eng.store(st, args[0].plus(16), 8, hi - 1)
        return RAW
    return m


def m_begin(eng, st, args, ins):
    lo, hi, s = G.fields(eng, st, args[0], 'begin')
    return Ptr(s, lo * 8)


def m_end(eng, st, args, ins):
    lo, hi, s = G.fields(eng, st, args[0], 'end')
    return Ptr(s, hi * 8)


def m_at(eng, st, args, ins):
    lo, hi, s = G.fields(eng, st, args[0], 'element access')
    i = st.L(args[1])
    Mem.require(st, cand(ge(i), ge(hi - lo - i - 1)), 'access beyond the elements of a container')
    return Ptr(s, (lo + i) * 8)


def m_clear(eng, st, args, ins):
    lo, hi, s = G.fields(eng, st, args[0], 'clear')
    G.put(eng, st, args[0], G.new(st, ((ZERO, L(BIG * 4), RAW),)), MID, MID)
    return RAW


def models():
    m = base_models()
    m.update(E_models())
    for c in '12':
        m['_ZN1CC%sEv' % c] = m_default
        m['_ZN1CC%sERKS_' % c] = m_copy
        m['_ZN1CC%sEOS_' % c] = m_move
        m['_ZN1CD%sEv' % c] = m_dtor
    m['_ZNK1C5emptyEv'] = m_empty
    m['_ZNK1C4sizeEv'] = m_size
    for k in ('_ZN1C', '_ZNK1C'):
        m[k + '5frontEv'] = m_front
        m[k + '4backEv'] = m_back
        m[k + '6begin_Ev'] = m_begin
        m[k + '4end_Ev'] = m_end
        m[k + 'ixEm'] = m_at
    m['_ZN1C5clearEv'] = m_clear
    m['_ZN1C9push_backERK1E'] = push(True, False)
    m['_ZN1C9push_backEO1E'] = push(True, True)
    m['_ZN1C10push_frontERK1E'] = push(False, False)
    m['_ZN1C10push_frontEO1E'] = push(False, True)
    m['_ZN1C9pop_frontEv'] = pop(True)
    m['_ZN1C8pop_backEv'] = pop(False)
    return m


def elem(i):
    return Term('q', (i,), 'E')


def container(st, name, kind='ext'):
    n = Lin.sym('n')
    st.cons = st.cons.add(n).add(BIG - n)
    s = name + '.seq'
    st.mem[s] = Arr('ghost', 'lin', 8, L(BIG * 4), {0: (8, ((ZERO, MID, RAW), (MID, MID + n, elem(I - BIG)), (MID + n, L(BIG * 4), RAW)))}, True)
    st.mem[name] = Flat(kind, 24, {0: (8, Ptr(s)), 8: (8, MID), 16: (8, MID + n)})
    return n


def run(ck):
    mod = ir.compile_ir('que.cpp')
    M = models()
    if not [t for t in mod.types if t['name'].startswith('queue')]:
        raise ir.Broken('queue not found')

    def go(name, entry, st, args):
        outs = ck.returns(ck.run('queue: ' + name, mod, entry, st, args, M))
        for o in outs:
            ck.no_stack_elements(o)
            for k, ob in o.st.mem.items():
                if ob.kind == 'stack' and isinstance(ob, Flat) and 0 in ob.cells and isinstance(ob.cells[0][1], Ptr) and '.seq' in str(ob.cells[0][1].obj):
                    ck.fail(o, 'a temporary container is not destroyed', 'life')
        return outs

    def holds(o, name, expected, what):
        """size, empty, and every element from front to back, through the interface"""
        total = ZERO
        for c, f in expected:
            total = total + c
        for o1, v in ck.observe(o, mod, 'h_size', [Ptr(name)], M):
            ck.eq(o1, v, o1.st.L(total), 'size of ' + what)
        for o1, v in ck.observe(o, mod, 'h_empty', [Ptr(name)], M):
            c = v.cond if isinstance(v, BInt) else cnot(eq0(v))
            w = eq0(o1.st.L(total))
            ck.prove(o1, cor(cand(c, w), cand(cnot(c), cnot(w))), 'empty() of %s disagrees with its contents' % what)
        ob = o.st.mem[name].cells
        p, lo, hi = ob[0][1], ob[8][1], ob[16][1]
        if not isinstance(p, Ptr):
            ck.fail(o, '%s holds no live container' % what, 'ub')
            return
        segs = o.st.mem[p.obj].cols[0][1]
        ck.seq(o, segs, lo, expected, 'contents of ' + what)

    st = State()
    st.mem['q'] = Flat('ext', 24, {0: (8, RAW)})
    for o in go('default construction', 'h_default', st, [Ptr('q')]):
        holds(o, 'q', [], 'a new queue')
    for fn in ('copyc', 'movec', 'copy', 'move'):
        st = State()
        n = container(st, 'c', 'ro' if fn.startswith('copy') else 'ext')
        st.mem['q'] = Flat('ext', 24, {0: (8, RAW)})
        nm = {'copyc': 'construction from a container', 'movec': 'construction from an rvalue container', 'copy': 'copy', 'move': 'move'}[fn]
        for o in go(nm, 'h_' + fn, st, [Ptr('q'), Ptr('c')]):
            holds(o, 'q', [(o.st.L(n), elem)], 'the new queue')
            if fn.startswith('copy'):
                holds(o, 'c', [(o.st.L(n), elem)], 'the source')
                ck.prove(o, o.st.mem['c'].cells[0][1] != o.st.mem['q'].cells[0][1], 'the copy shares its elements with the source')
            else:
                ck.prove(o, o.st.mem['c'].cells[0][1] is not RAW, 'the source is destroyed', 'ub')
                ck.eq(o, o.st.mem['q'].cells[0][1], Ptr('c.seq'), 'the elements are copied, not taken over: their storage')
    st0 = State()
    n = container(st0, 'q')
    for o in go('destruction', 'h_dtor', st0.copy(), [Ptr('q')]):
        ck.prove(o, o.st.mem['q'].cells[0][1] is RAW, 'the container is not destroyed', 'life')
    for fn in ('empty', 'size'):
        for o in go(fn, 'h_' + fn, st0.copy(), [Ptr('q')]):
            holds(o, 'q', [(o.st.L(n), elem)], 'the queue')
            if fn == 'size':
                ck.eq(o, o.val, o.st.L(n), 'size()')
    st1 = st0.copy()
    st1.cons = st1.cons.add(n - 1)
    for fn, i in (('front', ZERO), ('cfront', ZERO), ('back', n - 1), ('cback', n - 1)):
        for o in go(fn, 'h_' + fn, st1.copy(), [Ptr('q')]):
            ck.eq(o, o.val, Ptr('q.seq', (o.st.L(i) + MID) * 8), 'the element designated by ' + fn.lstrip('c'))
            holds(o, 'q', [(o.st.L(n), elem)], 'the queue')
    for fn in ('push', 'pushm'):
        st = st0.copy()
        st.mem['x'] = Flat('ro' if fn == 'push' else 'ext', 8, {0: (8, Term('x', (), 'E'))})
        for o in go('push' + (' of an rvalue' if fn == 'pushm' else ''), 'h_' + fn, st, [Ptr('q'), Ptr('x')]):
            holds(o, 'q', [(o.st.L(n), elem), (ONE, lambda i: Term('x', (), 'E'))], 'the queue')
            w = o.st.mem['x'].cells.get(0, (8, RAW))[1]
            if fn == 'push':
                ck.eq(o, w, Term('x', (), 'E'), 'the argument')
            else:
                ck.prove(o, w is not RAW, 'the argument is destroyed', 'ub')
                ck.prove(o, w is RAW or w is MOVED, 'an rvalue argument is copied, not moved from')
    for o in go('push of its own front', 'h_pushself', st1.copy(), [Ptr('q')]):
        holds(o, 'q', [(o.st.L(n), elem), (ONE, lambda i: elem(ZERO))], 'the queue')
    for o in go('pop', 'h_pop', st1.copy(), [Ptr('q')]):
        holds(o, 'q', [(o.st.L(n) - 1, lambda i: elem(i + 1))], 'the queue')
    return ck
