"""string: S01 (storage, terminator, bounds), S02 (contents and queries)"""
from ..spec import *
from ..layout import *
from .vec import truth
from .chain import ext_alloc, ext_dealloc

BIG = 1 << 40
I = Lin.sym(IDX)
R = Lin.sym(RV)
Q = Lin.sym(QV)


def ch(src, i):
    return Term(src, (i,), 8)


class Str:
    def __init__(self, mod, tname='basic_string', layout_roles=(('m_size', 'h_size'), ('m_capacity', 'h_capacity'), ('m_p', 'h_data'))):
        self.mod = mod
        ts = mod.type_prefix(tname)
        if not ts:
            raise ir.Broken('%s not found' % tname)
        self.t = max(ts, key=lambda t: t['size'])
        self.osz, self.ocap, self.op = layout(mod, base_models(), self.t, layout_roles)
        self.size = self.t['size']

    def make(self, st, name, kind='heap'):
        n, cap = Lin.sym(name + '.size'), Lin.sym(name + '.capacity')
        st.cons = st.cons.add(n).add(cap - n).add(cap - 1).add(BIG - cap)
        st.mem[name + '.buf'] = Arr(kind, 'lin', 1, cap + 1, {0: (1, ((ZERO, n, ch(name, I)), (n, n + 1, ZERO), (n + 1, cap + 1, ch(name + '.spare', I))))}, True, 'new')
        st.mem[name] = Flat('ext', self.size, {self.osz: (8, n), self.ocap: (8, cap), self.op: (8, Ptr(name + '.buf'))})
        return n, cap

    def fields(self, o, name):
        c = o.st.mem[name].cells
        g = lambda off: c.get(off, (8, RAW))[1]
        return g(self.osz), g(self.ocap), g(self.op)

    def check(self, ck, o, name, expected, what=None):
        what = what or name
        n, cap, p = self.fields(o, name)
        if not isinstance(n, Lin) or not isinstance(cap, Lin) or not isinstance(p, Ptr):
            ck.fail(o, '%s is left with indeterminate members' % what, 'ub')
            return set()
        if expected is not None:
            total = ZERO
            for cnt, f in expected:
                total = total + cnt
            ck.eq(o, n, total, 'size of ' + what)
        ck.prove(o, ge(n), '%s: negative size' % what, 'ub')
        ck.prove(o, ge(cap - n), '%s: size exceeds capacity' % what, 'ub')
        ob = o.st.mem.get(p.obj) if p.obj else None
        if ob is None or ob.alive is False:
            ck.fail(o, '%s has no live storage' % what, 'ub')
            return set()
        ck.eq(o, p.off, ZERO, '%s: storage pointer' % what, 'ub')
        nb = ob.n if isinstance(ob, Arr) else L(ob.size)
        if isinstance(ob, Arr) and ob.stride not in (None, 1):
            ck.fail(o, '%s: storage is not an array of characters' % what, 'ub')
            return {p.obj}
        ck.prove(o, eq0(nb - cap - 1), '%s: the allocation is not capacity+1 characters' % what, 'ub')
        if ob.tag != 'new' or ob.kind != 'heap':
            ck.fail(o, '%s: storage not obtained from the allocator' % what, 'ub')
        segs = ck.cells(o, p.obj, 0, 1)
        ck.seq(o, segs, n, [(ONE, lambda i: ZERO)], '%s: terminator' % what, 'ub')
        ck.seq(o, segs, ZERO, [(n, lambda i: initialised)], '%s: characters are initialised' % what, 'ub')
        if expected is not None:
            ck.seq(o, segs, ZERO, expected, 'contents of ' + what)
        return {p.obj}

    def untouched(self, ck, o, name, st0):
        a, b = o.st.mem[name], st0.mem[name]
        for off, (s, v) in b.cells.items():
            ck.eq(o, a.cells.get(off, (s, RAW))[1], vsubst(v, o.st.elim), 'a member of the source operand changed')
        bn = name + '.buf'
        if o.st.mem[bn].alive is not True:
            ck.fail(o, 'storage of the source operand was released', 'ub')
        else:
            n = o.st.L(Lin.sym(name + '.size'))
            ck.seq(o, ck.cells(o, bn, 0, 1), ZERO, [(n, lambda i: ch(name, i)), (ONE, lambda i: ZERO)], 'contents of the source operand')


def initialised(v):
    return v is not RAW


def cstr(st, name):
    """a null-terminated character array"""
    n = Lin.sym(name + '.len')
    st.cons = st.cons.add(n).add(BIG - n)
    st.mem[name] = Arr('ro', 'lin', 1, n + 1, {0: (1, ((ZERO, n, ch(name, I)), (n, n + 1, ZERO)))}, True)
    st.alls += ((ZERO, n, ('eq', ch(name, Q), ZERO), False),)
    return n


def chars(st, name):
    """a character array of unknown contents with exactly the given number of characters"""
    n = Lin.sym(name + '.count')
    st.cons = st.cons.add(n).add(BIG - n)
    st.mem[name] = Arr('ro', 'lin', 1, n, {0: (1, ((ZERO, n, ch(name, I)),))}, True)
    return n


def eqkey(a, b):
    k = canon_key(('eq', a, b))
    return k if isinstance(k, bool) else k[0]


def all_eq(lo, hi, a, b):
    """a(r) == b(r) for all lo <= r < hi"""
    k = eqkey(a, b)
    if k is True:
        return True
    return ('atom', ('all', lo, hi, KeyV(k)), True)


def run(ck):
    mod = ir.compile_ir('str.cpp')
    S = Str(mod)
    M = base_models()
    U64 = (1 << 64) - 1

    def go(name, entry, st, args):
        return ck.run('string: ' + name, mod, entry, st, args, M)

    def fresh_target(st):
        st.mem['s'] = Flat('ext', S.size, {})

    e = lambda o, x: o.st.L(x)

    # ---- construction
    for fn, nm in (('h_default', 'default construction'), ('h_alloc', 'construction from an allocator')):
        st = State()
        fresh_target(st)
        for o in ck.returns(go(nm, fn, st, [Ptr('s')])):
            ck.no_leak(o, S.check(ck, o, 's', []))
    st = State()
    fresh_target(st)
    n = chars(st, 'c')
    for o in ck.returns(go('construction from pointer and count', 'h_ptrcount', st, [Ptr('s'), Ptr('c'), n])):
        ck.no_leak(o, S.check(ck, o, 's', [(e(o, n), lambda i: ch('c', i))]))
    st = State()
    fresh_target(st)
    n = cstr(st, 'z')
    for o in ck.returns(go('construction from a C string', 'h_cstr', st, [Ptr('s'), Ptr('z')])):
        ck.no_leak(o, S.check(ck, o, 's', [(e(o, n), lambda i: ch('z', i))]))
    st = State()
    fresh_target(st)
    n = chars(st, 'c')
    for o in ck.returns(go('construction from an input range', 'h_range', st, [Ptr('s'), Ptr('c'), Ptr('c', n)])):
        ck.no_leak(o, S.check(ck, o, 's', [(e(o, n), lambda i: ch('c', i))]))
    for fn, nm in (('h_copy', 'copy construction'), ('h_move', 'move construction')):
        st = State()
        fresh_target(st)
        n, cap = S.make(st, 'o')
        for o in ck.returns(go(nm, fn, st, [Ptr('s'), Ptr('o')])):
            own = S.check(ck, o, 's', [(e(o, n), lambda i: ch('o', i))])
            if fn == 'h_copy':
                S.untouched(ck, o, 'o', st)
                own2 = {'o.buf'}
            else:
                own2 = S.check(ck, o, 'o', None)
            if own & own2:
                ck.fail(o, 'two strings own the same storage', 'ub')
            ck.no_leak(o, own | own2)
    st = State()
    n, cap = S.make(st, 's')
    for o in ck.returns(go('destruction', 'h_dtor', st, [Ptr('s')])):
        ck.no_leak(o, set(), 'storage is not released by the destructor')

    # ---- one string
    base = st
    c = Term('c', (), 8)
    old = lambda o: (e(o, n), lambda i: ch('s', i))
    for o in ck.returns(go('clear', 'h_clear', st, [Ptr('s')])):
        ck.no_leak(o, S.check(ck, o, 's', []))
    for fn in ('h_push', 'h_pluschar'):
        for o in ck.returns(go('push_back' if fn == 'h_push' else 'operator+= of a character', fn, st, [Ptr('s'), c])):
            ck.no_leak(o, S.check(ck, o, 's', [old(o), (ONE, lambda i: c)]))
            if fn == 'h_pluschar':
                ck.eq(o, o.val, Ptr('s'), 'result of +=')
    st = base.copy()
    k = Lin.sym('count')
    st.cons = st.cons.add(k).add(BIG - k)
    for o in ck.returns(go('reserve', 'h_reserve', st, [Ptr('s'), k])):
        ck.no_leak(o, S.check(ck, o, 's', [old(o)]))
        ck.prove(o, ge(S.fields(o, 's')[1] - e(o, k)), 'capacity is below the reserved amount')
    st = base.copy()
    st.cons = st.cons.add(n - 1)
    for o in ck.returns(go('pop_back', 'h_pop', st, [Ptr('s')])):
        ck.no_leak(o, S.check(ck, o, 's', [(e(o, n) - 1, lambda i: ch('s', i))]))
    for fn, idx in (('h_front', ZERO), ('h_cfront', ZERO), ('h_back', n - 1), ('h_cback', n - 1)):
        for o in ck.returns(go(fn[2:], fn, st, [Ptr('s')])):
            ck.eq(o, o.val, Ptr('s.buf', e(o, idx)), fn[2:] + '()')
    i = Lin.sym('pos')
    st2 = st.copy()
    st2.cons = st2.cons.add(i).add(n - 1 - i)
    for fn in ('h_index', 'h_cindex'):
        for o in ck.returns(go('subscript', fn, st2, [Ptr('s'), i])):
            ck.eq(o, o.val, Ptr('s.buf', e(o, i)), 'operator[]')
    for o in ck.returns(go('push_back of an own character', 'h_pushref', st2, [Ptr('s'), Ptr('s.buf', i)])):
        ck.no_leak(o, S.check(ck, o, 's', [old(o), (ONE, lambda j: ch('s', e(o, i)))]))
    st = base
    for fn, w in (('h_size', n), ('h_length', n), ('h_capacity', cap)):
        for o in ck.returns(go(fn[2:], fn, st, [Ptr('s')])):
            ck.eq(o, o.val, e(o, w), fn[2:] + '()')
    for o in ck.returns(go('empty', 'h_empty', st, [Ptr('s')])):
        ck.prove(o, cor(cand(truth(o.val), eq0(e(o, n))), cand(cnot(truth(o.val)), ge(e(o, n) - 1))), 'empty() does not tell whether the size is zero')
    for fn in ('h_begin', 'h_cbegin', 'h_ccbegin', 'h_data', 'h_cdata', 'h_c_str'):
        for o in ck.returns(go(fn[2:], fn, st, [Ptr('s')])):
            ck.eq(o, o.val, Ptr('s.buf'), fn[2:] + '()')
    for fn in ('h_end', 'h_cend', 'h_ccend'):
        for o in ck.returns(go(fn[2:], fn, st, [Ptr('s')])):
            ck.eq(o, o.val, Ptr('s.buf', e(o, n)), fn[2:] + '()')

    # ---- modification from another sequence
    st = State()
    n, cap = S.make(st, 's')
    m, cm = S.make(st, 'o')
    two = st
    for fn, nm in (('h_assign', 'copy assignment'), ('h_massign', 'move assignment')):
        for o in ck.returns(go(nm, fn, st, [Ptr('s'), Ptr('o')])):
            own = S.check(ck, o, 's', [(e(o, m), lambda i: ch('o', i))])
            if fn == 'h_assign':
                S.untouched(ck, o, 'o', st)
                own2 = {'o.buf'}
            else:
                own2 = S.check(ck, o, 'o', None)
            if own & own2:
                ck.fail(o, 'two strings own the same storage', 'ub')
            ck.no_leak(o, own | own2)
            ck.eq(o, o.val, Ptr('s'), 'result of the assignment')
    for fn, nm in (('h_append', 'append'), ('h_plus', 'operator+=')):
        for o in ck.returns(go(nm, fn, st, [Ptr('s'), Ptr('o')])):
            own = S.check(ck, o, 's', [(e(o, n), lambda i: ch('s', i)), (e(o, m), lambda i: ch('o', i))])
            S.untouched(ck, o, 'o', st)
            ck.no_leak(o, own | {'o.buf'})
            ck.eq(o, o.val, Ptr('s'), 'result of the append')
    st = State()
    n, cap = S.make(st, 's')
    m = chars(st, 'c')
    for o in ck.returns(go('append of pointer and count', 'h_appendn', st, [Ptr('s'), Ptr('c'), m])):
        ck.no_leak(o, S.check(ck, o, 's', [(e(o, n), lambda i: ch('s', i)), (e(o, m), lambda i: ch('c', i))]))
    st = State()
    n, cap = S.make(st, 's')
    m = cstr(st, 'z')
    for o in ck.returns(go('assignment of a C string', 'h_assigncs', st, [Ptr('s'), Ptr('z')])):
        ck.no_leak(o, S.check(ck, o, 's', [(e(o, m), lambda i: ch('z', i))]))
        ck.eq(o, o.val, Ptr('s'), 'result of the assignment')
    # own contents as the source
    st = State()
    n, cap = S.make(st, 's')
    for fn, nm in (('h_assign', 'self assignment'), ('h_massign', 'self move assignment')):
        for o in ck.returns(go(nm, fn, st, [Ptr('s'), Ptr('s')])):
            own = S.check(ck, o, 's', [(e(o, n), lambda i: ch('s', i))] if fn == 'h_assign' else None)
            ck.no_leak(o, own)
    for fn in ('h_append', 'h_plus'):
        for o in ck.returns(go('append of itself', fn, st, [Ptr('s'), Ptr('s')])):
            ck.no_leak(o, S.check(ck, o, 's', [(e(o, n), lambda i: ch('s', i))] * 2))
    a, k = Lin.sym('from'), Lin.sym('count')
    st.cons = st.cons.add(a).add(k).add(n - a - k)
    for o in ck.returns(go('append of a part of itself', 'h_appendn', st, [Ptr('s'), Ptr('s.buf', a), k])):
        ck.no_leak(o, S.check(ck, o, 's', [(e(o, n), lambda i: ch('s', i)), (e(o, k), lambda i: ch('s', i + e(o, a)))]))

    for o in ck.returns(go('assignment of a part of itself', 'h_assignn', st, [Ptr('s'), Ptr('s.buf', a), k])):
        ck.no_leak(o, S.check(ck, o, 's', [(e(o, k), lambda i: ch('s', i + e(o, a)))]))
        ck.eq(o, o.val, Ptr('s'), 'result of the assignment')
    st = State()
    n, cap = S.make(st, 's')
    m = chars(st, 'c')
    for o in ck.returns(go('assignment of pointer and count', 'h_assignn', st, [Ptr('s'), Ptr('c'), m])):
        ck.no_leak(o, S.check(ck, o, 's', [(e(o, m), lambda i: ch('c', i))]))
        ck.eq(o, o.val, Ptr('s'), 'result of the assignment')
    # the tail of the string itself, without zeros
    st = State()
    n, cap = S.make(st, 's')
    a = Lin.sym('from')
    st.cons = st.cons.add(a).add(n - a)
    st.alls += ((ZERO, n, ('eq', ch('s', Q), ZERO), False),)
    for o in ck.returns(go('assignment of a C string that is its own tail', 'h_assigncs', st, [Ptr('s'), Ptr('s.buf', a)])):
        ck.no_leak(o, S.check(ck, o, 's', [(e(o, n) - e(o, a), lambda i: ch('s', i + e(o, a)))]))

    # ---- queries
    st = two
    NPOS = U64

    def found(o, n, r, pos, m, tgt):
        """search result"""
        nn, mm, pp = e(o, n), e(o, m), e(o, pos)
        src = lambda i: ch('s', i)

        def match(i):
            return all_eq(ZERO, mm, ch('s', i + R), tgt(R))
        if isinstance(r, Lin) and r.is_const() and r.c % (1 << 64) == NPOS:
            # nowhere in [pos, n-m]
            iv = Lin.sym(fresh('at'))
            t = o.st.copy()
            t.cons = t.cons.add(iv - pp).add(nn - mm - iv)
            for x in o.st.scan:
                t.cons = t.cons.add(iv - e(o, x))
            if t.cons.bad or t.cons.feasible() is False:
                ck.prove(o, True, 'search')
                return
            ck.prove(Outcome('ret', t, None, o.loc), cnot(match(iv)), 'find returns npos although there may be an occurrence at %r' % (iv,))
            return
        if not isinstance(r, Lin):
            ck.fail(o, 'find returns %r' % (r,))
            return
        ck.prove(o, ge(r - pp), 'find returns a position before the starting position')
        ck.prove(o, ge(nn - mm - r), 'find returns a position whose occurrence would exceed the string')
        ck.prove(o, match(r), 'find returns a position where there is no occurrence')
        iv = Lin.sym(fresh('at'))
        t = o.st.copy()
        t.cons = t.cons.add(iv - pp).add(r - 1 - iv)
        for x in o.st.scan:
            t.cons = t.cons.add(iv - e(o, x))
        if not (t.cons.bad or t.cons.feasible() is False):
            ck.prove(Outcome('ret', t, None, o.loc), cnot(match(iv)), 'find does not return the first occurrence')

    def goal(n, pos, m, tgt):
        # what a search loop has to establish about the positions it has passed
        ck.search = ('s.buf', pos, n - m, lambda st, i: all_eq(ZERO, sub(m, st), ch('s', i + R), tgt(R)))

    pos = Lin.sym('pos')
    for self_ in (False, True):
        st = State()
        n, cap = S.make(st, 's')
        if self_:
            m, tgt, arg = n, (lambda i: ch('s', i)), Ptr('s')
        else:
            m, cm = S.make(st, 'o')
            tgt, arg = (lambda i: ch('o', i)), Ptr('o')
        sp = st.copy()
        sp.cons = sp.cons.add(pos).add(U64 - pos)
        sfx = ' of itself' if self_ else ''
        goal(n, pos, m, tgt)
        for o in ck.returns(go('find' + sfx, 'h_find', sp, [Ptr('s'), arg, pos])):
            found(o, n, o.val, pos, m, tgt)
        goal(n, ZERO, m, tgt)
        for o in ck.returns(go('find' + sfx + ' from the start', 'h_find0', st, [Ptr('s'), arg])):
            found(o, n, o.val, ZERO, m, tgt)
        if self_:
            continue
    st = State()
    n, cap = S.make(st, 's')
    sp = st.copy()
    sp.cons = sp.cons.add(pos).add(U64 - pos)
    goal(n, pos, ONE, lambda i: c)
    for o in ck.returns(go('find of a character', 'h_findc', sp, [Ptr('s'), c, pos])):
        found(o, n, o.val, pos, ONE, lambda i: c)
    goal(n, ZERO, ONE, lambda i: c)
    for o in ck.returns(go('find of a character from the start', 'h_findc0', st, [Ptr('s'), c])):
        found(o, n, o.val, ZERO, ONE, lambda i: c)
    s3 = sp.copy()
    m = chars(s3, 'c')
    goal(n, pos, m, lambda i: ch('c', i))
    for o in ck.returns(go('find of pointer and count', 'h_findn', s3, [Ptr('s'), Ptr('c'), pos, m])):
        found(o, n, o.val, pos, m, lambda i: ch('c', i))
    s3 = sp.copy()
    m = cstr(s3, 'z')
    goal(n, pos, m, lambda i: ch('z', i))
    for o in ck.returns(go('find of a C string', 'h_findz', s3, [Ptr('s'), Ptr('z'), pos])):
        found(o, n, o.val, pos, m, lambda i: ch('z', i))
    s3 = st.copy()
    m = cstr(s3, 'z')
    goal(n, ZERO, m, lambda i: ch('z', i))
    for o in ck.returns(go('find of a C string from the start', 'h_findz0', s3, [Ptr('s'), Ptr('z')])):
        found(o, n, o.val, ZERO, m, lambda i: ch('z', i))
    ck.search = None

    # ---- comparison
    def cmp_cases(o, nn, mm, x, y):
        """three-way comparison of x[0,nn) and y[0,mm): [(state, sign)] covering the outcome state"""
        todo = []
        for c1, ln in ((ge(mm - nn), nn), (ge(nn - mm - 1), mm)):
            for s in assume(o.st, c1, False):
                todo.append((s, s.L(ln) if False else vsubst(ln, s.elim)))
        for s, ln in todo:
            n1, m1 = vsubst(nn, s.elim), vsubst(mm, s.elim)
            A = all_eq(ZERO, ln, x(R), y(R))
            # a first difference the path has established
            hit = None
            key = None if A is True else A[1][3].key
            if key is not None:
                for k, p in s.facts.items():
                    if not p and k[0] == 'eq':
                        q = match_key(ksubst(key, {RV: Q}), k)
                        if q not in (None, True) and s.cons.entails(q) and s.cons.entails(ln - 1 - q) and \
                                decide(s, all_eq(ZERO, q, x(R), y(R))) is True:
                            hit = q
            if hit is not None:
                for pol, sg in ((True, -1), (False, 1)):
                    for s2 in assume(s, ('atom', ('ult', x(hit), y(hit)), pol), False):
                        yield s2, sg, None
                continue
            for s2 in assume(s, A, False):
                for cc, sg in ((ge(m1 - n1 - 1), -1), (eq0(n1 - m1), 0), (ge(n1 - m1 - 1), 1)):
                    for s3 in assume(s2, csubst(cc, s2.elim), False):
                        yield s3, sg, None
            if A is not True:
                for s2 in assume(s, cnot(A), False):
                    yield s2, None, 'unknown'

    def compare_spec(o, nn, mm, x, y, kind, swap=False):
        for s, sg, unk in cmp_cases(o, nn, mm, x, y):
            o2 = Outcome('ret', s, o.val, o.loc)
            v = vsubst(o.val, s.elim)
            if kind == 'cmp':
                if sg is None:
                    # different characters, order not looked at
                    ck.prove(o2, False, 'compare() does not look at a difference of the characters')
                    continue
                c = {-1: ge(-v - 1), 0: eq0(v), 1: ge(v - 1)}[sg] if isinstance(v, Lin) else ('top', 'value')
                ck.prove(o2, c, 'compare() returns %r where the order is %s' % (v, sg))
            else:
                t = truth(v)
                if kind == 'eq':
                    want = sg == 0
                elif kind == 'ne':
                    want = sg != 0
                else:
                    if sg is None:
                        ck.prove(o2, False, 'operator< does not look at a difference of the characters')
                        continue
                    want = (sg < 0) if not swap else (sg > 0)
                ck.prove(o2, t if want else cnot(t), 'comparison operator is wrong where the order is %s' % (sg,))

    def comparisons(T, tag, run_):
        def go2(name, entry, st, args):
            return run_(tag + name, entry, st, args)
        for self_ in (False, True):
            st = State()
            n, cap = T.make(st, 's')
            if self_:
                m, y, arg = n, (lambda i: ch('s', i)), Ptr('s')
            else:
                m, cm = T.make(st, 'o')
                y, arg = (lambda i: ch('o', i)), Ptr('o')
            x = lambda i: ch('s', i)
            for fn, kind in (('h_compare', 'cmp'), ('h_eq', 'eq'), ('h_ne', 'ne'), ('h_lt', 'lt')):
                for o in ck.returns(go2(fn[2:] + (' with itself' if self_ else ''), fn, st, [Ptr('s'), arg])):
                    compare_spec(o, e(o, n), e(o, m), x, y, kind)
                    T.untouched(ck, o, 's', st)
                    if not self_:
                        T.untouched(ck, o, 'o', st)
        st = State()
        n, cap = T.make(st, 's')
        m = cstr(st, 'z')
        y = lambda i: ch('z', i)
        for fn, kind in (('h_comparez', 'cmp'), ('h_eqz', 'eq'), ('h_zeq', 'eq'), ('h_nez', 'ne'), ('h_zne', 'ne'), ('h_ltz', 'lt'), ('h_zlt', 'gt')):
            for o in ck.returns(go2('comparison with a C string (%s)' % fn[2:], fn, st, [Ptr('s'), Ptr('z')])):
                if kind == 'gt':
                    compare_spec(o, e(o, n), e(o, m), x, y, 'lt', swap=True)
                else:
                    compare_spec(o, e(o, n), e(o, m), x, y, kind)

    comparisons(S, '', go)
    # the operators for strings of another allocator are functions of their own
    mod2 = ir.compile_ir('str.cpp', flags=['-DOWN_ALLOCATOR'])
    M2 = base_models()
    M2['ext_alloc'] = ext_alloc
    M2['ext_dealloc'] = ext_dealloc
    comparisons(Str(mod2), 'of an allocator of its own: ', lambda name, entry, st, args: ck.run('string ' + name, mod2, entry, st, args, M2))
    return ck
