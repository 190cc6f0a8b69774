"""vector: V01 (storage and element lifetime), V02 (sequence semantics)"""
from ..spec import *
from ..layout import *

BIG = 1 << 40
I = Lin.sym(IDX)


def models():
    m = base_models()
    m.update(E_models())
    m['_ZN1AI1EE8allocateEm'] = alloc_E('A', 8)
    m['_ZN1AI1EE10deallocateEPS0_m'] = dealloc_E('A', 8)
    return m


def elem(src, i):
    return Term(src, (i,), 'E')


class Vec:
    def __init__(self, mod):
        self.mod = mod
        self.t = mod.type_prefix('vector')[0]
        self.osz, self.ocap, self.op = layout(mod, models(), self.t, [('m_size', 'h_size'), ('m_capacity', 'h_capacity'), ('m_p', 'h_data')])
        self.size = self.t['size']

    def make(self, st, name, null=False, src=None):
        """a vector satisfying the class invariant with symbolic size and capacity"""
        src = src or name
        n, cap = Lin.sym(name + '.size'), Lin.sym(name + '.capacity')
        if null:
            st.mem[name] = Flat('ext', self.size, {self.osz: (8, ZERO), self.ocap: (8, ZERO), self.op: (8, NULL)})
            return ZERO, ZERO
        st.cons = st.cons.add(n).add(cap - n).add(cap - 1).add(BIG - cap)
        st.mem[name + '.buf'] = Arr('heap', 'lin', 8, cap, {0: (8, ((ZERO, n, elem(src, I)), (n, cap, RAW)))}, True, 'A')
        st.mem[name] = Flat('ext', self.size, {self.osz: (8, n), self.ocap: (8, cap), self.op: (8, Ptr(name + '.buf'))})
        return n, cap

    def fields(self, o, name):
        c = o.st.mem[name].cells
        g = lambda off: c.get(off, (8, RAW))[1]
        return g(self.osz), g(self.ocap), g(self.op)

    def check(self, ck, o, name, expected, same_buffer=False, what=None):
        """the class invariant and the exact contents; returns owned object names"""
        what = what or name
        n, cap, p = self.fields(o, name)
        if not isinstance(n, Lin) or not isinstance(cap, Lin) or not isinstance(p, Ptr):
            ck.fail(o, '%s is left with indeterminate members' % what, 'ub')
            return set()
        total = ZERO
        for cnt, f in expected:
            total = total + cnt
        ck.eq(o, n, total, 'size of ' + what)
        ck.prove(o, ge(cap - n), '%s: size exceeds capacity' % what, 'ub')
        if p.obj is None:
            ck.prove(o, eq0(cap), '%s: capacity without storage' % what, 'ub')
            return set()
        ob = o.st.mem.get(p.obj)
        if ob is None or ob.alive is False:
            ck.prove(o, eq0(cap), '%s refers to released storage' % what, 'ub')
            return set()
        ck.eq(o, p.off, ZERO, '%s: storage pointer' % what, 'ub')
        ck.prove(o, cor(eq0(cap), eq0(self.cells_n(ob) - cap)), '%s: capacity differs from the allocated size' % what, 'ub')
        segs = ck.cells(o, p.obj)
        ck.seq(o, segs, ZERO, expected, 'contents of ' + what)
        # everything beyond the size is raw storage; nothing within is
        ck.seq(o, segs, n, [(cap - n, lambda i: RAW)], '%s: storage beyond the size' % what, 'life')
        ck.seq(o, segs, ZERO, [(n, lambda i: alive)], '%s: elements are alive' % what, 'ub')
        if ob.tag != 'A':
            ck.fail(o, '%s: storage not obtained from the allocator' % what, 'ub')
        return {p.obj}

    def cells_n(self, ob):
        return ob.n if isinstance(ob, Arr) else L(ob.size // 8)

    def untouched(self, ck, o, name, st0):
        """another operand is exactly as before"""
        a, b = o.st.mem[name], st0.mem[name]
        for off, (s, v) in b.cells.items():
            w = a.cells.get(off, (s, RAW))[1]
            ck.eq(o, w, vsubst(v, o.st.elim), 'a member of the source operand changed')
        bn = name + '.buf'
        if bn in st0.mem:
            if o.st.mem[bn].alive is not True:
                ck.fail(o, 'storage of the source operand was released')
            else:
                segs = [(vsubst(lo, o.st.elim), vsubst(hi, o.st.elim), vsubst(v, o.st.elim)) for lo, hi, v in st0.mem[bn].cols[0][1]]
                ck.seq(o, ck.cells(o, bn), ZERO, [(hi - lo, (lambda lo, v: lambda i: at(v, lo + i))(lo, v)) for lo, hi, v in segs], 'contents of the source operand')


def alive(v):
    return v is not RAW


def run(ck):
    mod = ir.compile_ir('vec.cpp')
    V = Vec(mod)
    M = models()

    counting = copies_counted(M)

    def go(name, entry, st, args, M=M):
        outs = ck.run('vector: ' + name, mod, entry, st, args, M)
        for o in outs:
            ck.no_stack_elements(o)
        return outs

    def e(st, x):
        return st.L(x)

    def bounded(st, *syms, hi=BIG):
        for s in syms:
            st.cons = st.cons.add(Lin.sym(s)).add(hi - Lin.sym(s))

    # ---- construction
    st = State()
    st.mem['v'] = Flat('ext', V.size, {})
    for o in ck.returns(go('default construction', 'h_default', st, [Ptr('v')])):
        ck.no_leak(o, V.check(ck, o, 'v', []))
    st = State()
    st.mem['v'] = Flat('ext', V.size, {})
    bounded(st, 'count')
    for o in ck.returns(go('construction with a count', 'h_count', st, [Ptr('v'), Lin.sym('count')])):
        ck.no_leak(o, V.check(ck, o, 'v', [(e(o.st, 'count'), lambda i: Term('E.default', (), 'E'))]))
    st = State()
    st.mem['v'] = Flat('ext', V.size, {})
    bounded(st, 'len')
    ln = Lin.sym('len')
    st.mem['il.buf'] = Arr('ro', 'lin', 8, ln, {0: (8, ((ZERO, ln, elem('il', I)),))}, True)
    st.mem['il'] = Flat('ro', 16, {0: (8, Ptr('il.buf')), 8: (8, ln)})
    for o in ck.returns(go('construction from a list', 'h_init', st, [Ptr('v'), Ptr('il')])):
        ck.no_leak(o, V.check(ck, o, 'v', [(e(o.st, 'len'), lambda i: elem('il', i))]))
    for null in (False, True):
        sfx = ' (empty, no storage)' if null else ''
        st = State()
        st.mem['v'] = Flat('ext', V.size, {})
        n, cap = V.make(st, 'o', null)
        for o in ck.returns(go('copy construction' + sfx, 'h_copy', st, [Ptr('v'), Ptr('o')])):
            own = V.check(ck, o, 'v', [(e(o.st, n), lambda i: elem('o', i))])
            V.untouched(ck, o, 'o', st)
            if 'o.buf' in own:
                ck.fail(o, 'the copy shares storage with its source', 'ub')
            ck.no_leak(o, own | {'o.buf'})
        st = State()
        st.mem['v'] = Flat('ext', V.size, {})
        n, cap = V.make(st, 'o', null)
        for o in ck.returns(go('move construction' + sfx, 'h_move', st, [Ptr('v'), Ptr('o')])):
            own = V.check(ck, o, 'v', [(e(o.st, n), lambda i: elem('o', i))])
            own2 = valid(V, ck, o, 'o')
            ck.no_leak(o, own | own2)
            if own & own2:
                ck.fail(o, 'two vectors own the same storage', 'ub')
        st = State()
        n, cap = V.make(st, 'v', null)
        for o in ck.returns(go('destruction' + sfx, 'h_dtor', st, [Ptr('v')])):
            ck.no_leak(o, set(), 'storage is not released by the destructor')
            if not null:
                pass

        # ---- one-vector operations
        st = State()
        n, cap = V.make(st, 'v', null)
        st.cons = st.cons.add(Lin.sym('count')).add(BIG - Lin.sym('count'))
        k = Lin.sym('count')
        for o in ck.returns(go('reserve' + sfx, 'h_reserve', st, [Ptr('v'), k])):
            own = V.check(ck, o, 'v', [(e(o.st, n), lambda i: elem('v', i))])
            ck.no_leak(o, own)
            ck.prove(o, ge(V.fields(o, 'v')[1] - e(o.st, k)), 'capacity is below the reserved amount')
            stable(V, ck, o, 'v', null, ge(e(o.st, cap) - e(o.st, k)))
        for o in ck.returns(go('resize' + sfx, 'h_resize', st, [Ptr('v'), k])):
            n1, k1 = e(o.st, n), e(o.st, k)
            d = decide(o.st, ge(n1 - k1))
            if d is None:
                for c in (ge(n1 - k1), ge(k1 - n1 - 1)):
                    for s in assume(o.st, c, False):
                        resized(V, ck, Outcome('ret', s, None, o.loc), n, k, cap, null)
            else:
                resized(V, ck, o, n, k, cap, null)
        for o in ck.returns(go('clear' + sfx, 'h_clear', st, [Ptr('v')])):
            ck.no_leak(o, V.check(ck, o, 'v', []))
            stable(V, ck, o, 'v', null, True)
        st = State()
        n, cap = V.make(st, 'v', null)
        st.mem['x'] = Flat('ext', 8, {0: (8, elem('x', ZERO))})
        for mv in (False, True):
            for o in ck.returns(go(('push_back of an rvalue' if mv else 'push_back') + sfx, 'h_pushm' if mv else 'h_push', st, [Ptr('v'), Ptr('x')], counting if mv else M)):
                own = V.check(ck, o, 'v', [(e(o.st, n), lambda i: elem('v', i)), (ONE, lambda i: elem('x', ZERO))])
                ck.no_leak(o, own)
                if not mv:
                    ck.eq(o, o.st.mem['x'].cells[0][1], elem('x', ZERO), 'the argument of push_back changed')
                else:
                    ck.prove(o, o.st.mem['x'].cells[0][1] is not RAW, 'the argument of push_back was destroyed', 'ub')
                    ck.prove(o, o.st.mem['x'].cells[0][1] in (RAW, MOVED), 'the argument of push_back is copied, not moved from')
                    ck.prove(o, copies(o) == 0, 'the argument of push_back is moved and then copied')
                stable(V, ck, o, 'v', null, ge(e(o.st, cap) - e(o.st, n) - 1))
        # access
        st = State()
        n, cap = V.make(st, 'v', null)
        i = Lin.sym('pos')
        st.cons = st.cons.add(i).add((1 << 64) - 1 - i)
        for fn in ('h_at', 'h_cat'):
            for o in go('at' + (' const' if fn == 'h_cat' else '') + sfx, fn, st, [Ptr('v'), i]):
                if o.kind == 'throw':
                    ck.prove(o, o.val == '@_ZTISt12out_of_range', 'at throws something else than out_of_range')
                    ck.prove(o, ge(e(o.st, i) - e(o.st, n)), 'at throws for an index within the size')
                else:
                    ck.prove(o, ge(e(o.st, n) - e(o.st, i) - 1), 'at does not throw for an index out of range')
                    if not null:
                        ck.eq(o, o.val, Ptr('v.buf', e(o.st, i) * 8), 'at refers to the wrong element')
        for fn, what in (('h_size', n), ('h_capacity', cap)):
            for o in ck.returns(go(fn[2:] + sfx, fn, st, [Ptr('v')])):
                ck.eq(o, o.val, e(o.st, what), fn[2:] + '()')
        for o in ck.returns(go('empty' + sfx, 'h_empty', st, [Ptr('v')])):
            ck.prove(o, cor(cand(truth(o.val), eq0(e(o.st, n))), cand(cnot(truth(o.val)), ge(e(o.st, n) - 1))), 'empty() does not tell whether the size is zero')
        base = NULL if null else Ptr('v.buf')
        for fn in ('h_begin', 'h_cbegin', 'h_ccbegin', 'h_data', 'h_cdata'):
            for o in ck.returns(go(fn[2:] + sfx, fn, st, [Ptr('v')])):
                ck.eq(o, o.val, base, fn[2:] + '()')
        for fn in ('h_end', 'h_cend', 'h_ccend'):
            for o in ck.returns(go(fn[2:] + sfx, fn, st, [Ptr('v')])):
                ck.eq(o, o.val, base.plus(e(o.st, n) * 8), fn[2:] + '()')
        for fn in ('h_rlen', 'h_crlen'):
            for o in ck.returns(go('reverse range' + sfx, fn, st, [Ptr('v')])):
                ck.eq(o, o.val, e(o.st, n), 'length of the reverse range')

    # operations with a precondition on the size
    st = State()
    n, cap = V.make(st, 'v')
    st.cons = st.cons.add(n - 1)
    for o in ck.returns(go('pop_back', 'h_pop', st, [Ptr('v')])):
        ck.no_leak(o, V.check(ck, o, 'v', [(e(o.st, n) - 1, lambda i: elem('v', i))]))
        stable(V, ck, o, 'v', False, True)
    for fn, idx in (('h_front', ZERO), ('h_cfront', ZERO), ('h_back', n - 1), ('h_cback', n - 1)):
        for o in ck.returns(go(fn[2:], fn, st, [Ptr('v')])):
            ck.eq(o, o.val, Ptr('v.buf', e(o.st, idx) * 8), fn[2:] + '()')
    i = Lin.sym('pos')
    st2 = st.copy()
    st2.cons = st.cons.add(i).add(n - 1 - i)
    for fn in ('h_index', 'h_cindex'):
        for o in ck.returns(go('subscript', fn, st2, [Ptr('v'), i])):
            ck.eq(o, o.val, Ptr('v.buf', e(o.st, i) * 8), 'operator[]')
    for fn in ('h_rat', 'h_crat'):
        for o in ck.returns(go('reverse subscript', fn, st2, [Ptr('v'), i])):
            ck.eq(o, o.val, Ptr('v.buf', (e(o.st, n) - 1 - e(o.st, i)) * 8), 'element through a reverse iterator')
    # push_back of an own element
    for o in ck.returns(go('push_back of an own element', 'h_push', st2, [Ptr('v'), Ptr('v.buf', i * 8)])):
        own = V.check(ck, o, 'v', [(e(o.st, n), lambda j: elem('v', j)), (ONE, lambda j: elem('v', e(o.st, i)))])
        ck.no_leak(o, own)
    # erase
    st = State()
    n, cap = V.make(st, 'v')
    a, b = Lin.sym('first'), Lin.sym('last')
    st.cons = st.cons.add(a).add(b - a).add(n - b)
    for o in ck.returns(go('erase of a range', 'h_erase', st, [Ptr('v'), Ptr('v.buf', a * 8), Ptr('v.buf', b * 8)])):
        a1, b1, n1 = e(o.st, a), e(o.st, b), e(o.st, n)
        own = V.check(ck, o, 'v', [(a1, lambda i: elem('v', i)), (n1 - b1, lambda i: elem('v', i + (b1)))])
        ck.no_leak(o, own)
        ck.eq(o, o.val, Ptr('v.buf', a1 * 8), 'iterator returned by erase')
        stable(V, ck, o, 'v', False, True)

    # ---- two vectors
    for n1 in (False, True):
        for n2 in (False, True):
            sfx = {(False, False): '', (True, False): ' (to an empty one)', (False, True): ' (from an empty one)', (True, True): ' (both empty)'}[(n1, n2)]
            st = State()
            n, cap = V.make(st, 'v', n1)
            m, cm = V.make(st, 'o', n2)
            for o in ck.returns(go('copy assignment' + sfx, 'h_assign', st, [Ptr('v'), Ptr('o')])):
                own = V.check(ck, o, 'v', [(e(o.st, m), lambda i: elem('o', i))])
                V.untouched(ck, o, 'o', st)
                if 'o.buf' in own:
                    ck.fail(o, 'the copy shares storage with its source', 'ub')
                ck.no_leak(o, own | {'o.buf'})
                ck.eq(o, o.val, Ptr('v'), 'result of the assignment')
            for o in ck.returns(go('move assignment' + sfx, 'h_massign', st, [Ptr('v'), Ptr('o')])):
                own = V.check(ck, o, 'v', [(e(o.st, m), lambda i: elem('o', i))])
                own2 = valid(V, ck, o, 'o')
                ck.no_leak(o, own | own2)
                if own & own2:
                    ck.fail(o, 'two vectors own the same storage', 'ub')
                ck.eq(o, o.val, Ptr('v'), 'result of the assignment')
            for o in ck.returns(go('swap' + sfx, 'h_swap', st, [Ptr('v'), Ptr('o')])):
                own = V.check(ck, o, 'v', [(e(o.st, m), lambda i: elem('o', i))])
                own2 = V.check(ck, o, 'o', [(e(o.st, n), lambda i: elem('v', i))])
                ck.no_leak(o, own | own2)
                ck.eq(o, V.fields(o, 'v')[1], e(o.st, cm), 'capacity after swap')
                ck.eq(o, V.fields(o, 'o')[1], e(o.st, cap), 'capacity after swap')
            for fn, neg in (('h_eq', False), ('h_ne', True)):
                for o in ck.returns(go(('inequality' if neg else 'equality') + sfx, fn, st, [Ptr('v'), Ptr('o')])):
                    c = truth(o.val)
                    if neg:
                        c = cnot(c)
                    nn, mm = e(o.st, n), e(o.st, m)
                    x, y = elem('v', Lin.sym(RV)), elem('o', Lin.sym(RV))
                    key = ('Eeq', x, y) if order(x) < order(y) else ('Eeq', y, x)
                    want = cand(eq0(nn - mm), ('atom', ('all', ZERO, nn, KeyV(key)), True))
                    ck.prove(o, cor(cand(c, want), cand(cnot(c), cnot(want))), 'the result of the comparison is wrong')
                    V.untouched(ck, o, 'v', st)
                    V.untouched(ck, o, 'o', st)
    # self operands
    for null in (False, True):
        sfx = ' (empty)' if null else ''
        st = State()
        n, cap = V.make(st, 'v', null)
        for o in ck.returns(go('self assignment' + sfx, 'h_assign', st, [Ptr('v'), Ptr('v')])):
            ck.no_leak(o, V.check(ck, o, 'v', [(e(o.st, n), lambda i: elem('v', i))]))
        for o in ck.returns(go('self move assignment' + sfx, 'h_massign', st, [Ptr('v'), Ptr('v')])):
            ck.no_leak(o, valid(V, ck, o, 'v'))
        for o in ck.returns(go('self swap' + sfx, 'h_swap', st, [Ptr('v'), Ptr('v')])):
            ck.no_leak(o, V.check(ck, o, 'v', [(e(o.st, n), lambda i: elem('v', i))]))
    return ck


def truth(v):
    if isinstance(v, BInt):
        return v.cond
    if isinstance(v, Lin):
        return cnot(eq0(v))
    return ('top', 'not a truth value')


def stable(V, ck, o, name, null, cond):
    """no reallocation while cond holds"""
    if null or cond is False:
        return
    p = V.fields(o, name)[2]
    if isinstance(p, Ptr) and p.obj == name + '.buf':
        return
    ck.prove(o, cnot(cond), 'storage is reallocated although the capacity suffices')


def resized(V, ck, o, n, k, cap, null):
    n1, k1 = o.st.L(n), o.st.L(k)
    if decide(o.st, ge(n1 - k1)):
        exp = [(k1, lambda i: elem('v', i))]
    else:
        exp = [(n1, lambda i: elem('v', i)), (k1 - n1, lambda i: Term('E.default', (), 'E'))]
    own = V.check(ck, o, 'v', exp)
    ck.no_leak(o, own)
    stable(V, ck, o, 'v', null, ge(o.st.L(cap) - k1))


def valid(V, ck, o, name):
    """a vector left in some valid state; -> owned objects"""
    n, cap, p = V.fields(o, name)
    if not isinstance(n, Lin) or not isinstance(cap, Lin) or not isinstance(p, Ptr):
        ck.fail(o, '%s is left with indeterminate members' % name, 'ub')
        return set()
    ck.prove(o, ge(cap - n), '%s: size exceeds capacity' % name, 'ub')
    ck.prove(o, ge(n), '%s: negative size' % name, 'ub')
    if p.obj is None:
        ck.prove(o, eq0(cap), '%s: capacity without storage' % name, 'ub')
        return set()
    ob = o.st.mem.get(p.obj)
    if ob is None or ob.alive is False:
        ck.prove(o, eq0(cap), '%s refers to released storage' % name, 'ub')
        return set()
    ck.eq(o, p.off, ZERO, '%s: storage pointer' % name, 'ub')
    ck.prove(o, cor(eq0(cap), eq0(V.cells_n(ob) - cap)), '%s: capacity differs from the allocated size' % name, 'ub')
    segs = ck.cells(o, p.obj)
    ck.seq(o, segs, ZERO, [(n, lambda i: alive)], '%s: elements are alive' % name, 'ub')
    ck.seq(o, segs, n, [(cap - n, lambda i: RAW)], '%s: storage beyond the size' % name, 'life')
    return {p.obj}
