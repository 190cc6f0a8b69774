"""shared_ptr: H01"""
from ..spec import *

BIG = 1 << 40


def val(n):
    return Term(n, (), 'E')


def m_call_deleter(eng, st, args, ins):
    """a user deleter: records its identity and argument and disposes of the pointee"""
    d = E_get(eng, st, args[0], 'calling a deleter through')
    st.log += (('deleter', d, args[1]),)
    p = args[1]
    if isinstance(p, Ptr) and p.obj is not None:
        o = eng.obj(st, p, 'deletion')
        if p.off != (L(8) if o.tag == 'new[]' else ZERO):
            raise Lost('deleter called with %r' % (p,))
        st.mem[p.obj] = o.copy(alive=False)
    return RAW


def models():
    m = base_models()
    m.update(E_models())
    m.update(E_models('1D', 8, 'D'))
    m.update(E_models('2D2', 8, 'D2'))
    m['_ZNK1DclEP1E'] = m_call_deleter
    m['_ZNK2D2clEP1E'] = m_call_deleter
    return m


class Kind:
    """shared_ptr<E> or shared_ptr<E[]>"""

    def __init__(self, ck, mod, M, pre, title):
        self.ck, self.mod, self.M, self.p, self.title = ck, mod, M, pre, title
        self.size = None

    def entry(self, n):
        return 'h_' + self.p + n

    def pointee(self, st, name):
        st.mem[name] = Flat('heap', 8, {0: (8, val(name))}, tag='new')
        return Ptr(name)

    def raw(self, st, name):
        st.mem[name] = Flat('ext', 16, {})

    def build(self, st, name, dele, pointee=True, rename=True):
        """construct a shared_ptr inside the analysis; the count then becomes a symbol >= 1.
        -> [(state, count symbol, pointee)]"""
        self.raw(st, name)
        q = NULL
        sts = [(st, NULL)]
        if pointee and self.p == 'a':
            n = Lin.sym(name + '.n')
            st.cons = st.cons.add(n).add(BIG - n)
            sts = []
            for o in Engine(self.mod, self.M).run('h_anew', st, [n]):
                if o.kind == 'ret':
                    sts.append((o.st, o.val))
                elif o.kind == 'lost':
                    raise ir.Broken('cannot build an array pointee: %s' % o.val)
        elif pointee:
            q = self.pointee(st, 'p' + name)
            sts = [(st, q)]
        res = []
        for s, q in sts:
            args = [Ptr(name), q]
            if dele:
                s.mem['d' + name] = Flat('ext', 8, {0: (8, Term('D.' + name, (), 'E'))})
                args.append(Ptr('d' + name))
            outs = Engine(self.mod, self.M).run(self.entry('ctord' if dele else 'ctor'), s, args)
            for o in outs:
                if o.kind != 'ret':
                    if o.st.cons.feasible() is False:
                        continue
                    raise ir.Broken('construction of a shared_ptr is not analysable: %s at %s' % (o.val, o.loc))
                res.append((o.st, q))
        out = []
        for s, q in res:
            s.frames = []
            s.frames = [{}]
            out += self.symbolic(s, name, q)
        return out

    def symbolic(self, s, name, q):
        """find the cell use_count() reads and make it a symbol"""
        c = Lin.sym(name + '.owners')
        for k, ob in list(s.mem.items()):
            if not k.startswith('heap#') or not isinstance(ob, Flat) or k == q.obj:
                continue
            for off, (sz, v) in ob.cells.items():
                if v == ONE:
                    t = s.copy()
                    cells = dict(ob.cells)
                    cells[off] = (sz, c)
                    t.mem[k] = ob.copy(cells=cells)
                    t.cons = t.cons.add(c - 1).add((1 << 30) - c)
                    outs = Engine(self.mod, self.M).run(self.entry('use_count'), t, [Ptr(name)])
                    if len(outs) == 1 and outs[0].kind == 'ret' and outs[0].val == c:
                        return [(t, c, q)]
        raise ir.Broken('the cell counting the owners was not found')

    def share(self, st, a, b):
        """b another owner of a's group; the count is at least two"""
        st.mem[b] = st.mem[a].copy()
        st.cons = st.cons.add(Lin.sym(a + '.owners') - 2)

    def empty(self, st, name):
        self.raw(st, name)
        outs = Engine(self.mod, self.M).run(self.entry('default'), st, [Ptr(name)])
        if len(outs) != 1 or outs[0].kind != 'ret':
            raise ir.Broken('default construction of a shared_ptr is not analysable')
        s = outs[0].st
        s.frames = [{}]
        return s

    # ------------------------------------------------------------- obligations
    def go(self, name, entry, st, args):
        outs = self.ck.run(self.title + ': ' + name, self.mod, entry, st, args, self.M)
        outs = self.ck.returns(outs)
        for o in outs:
            self.ck.no_stack_elements(o)
        return outs

    def is_(self, o, name, count, ptr, what=None):
        """use_count() and get() of an owner"""
        ck = self.ck
        what = what or name
        res = []
        for o2, c in ck.observe(o, self.mod, self.entry('use_count'), [Ptr(name)], self.M):
            ck.eq(o2, c, o2.st.L(count), 'use_count() of %s' % what)
            for o3, p in ck.observe(o2, self.mod, self.entry('get'), [Ptr(name)], self.M):
                ck.eq(o3, p, o3.st.L(ptr) if not isinstance(ptr, Ptr) else vsubst(ptr, o3.st.elim), 'get() of %s' % what)
                res.append(o3)

    def gone(self, o, q, dele, name):
        """the group of `name` has been disposed of exactly once"""
        ck = self.ck
        calls = [x for x in o.st.log if x[0] == 'deleter']
        if dele:
            if len(calls) != 1:
                ck.fail(o, 'the deleter is called %d times when the last owner goes' % len(calls), 'ub')
            else:
                ck.eq(o, calls[0][1], Term('D.' + name, (), 'E'), 'the deleter used')
                ck.eq(o, calls[0][2], q, 'the pointer given to the deleter')
        elif q != NULL:
            if o.st.mem[q.obj].alive is not False:
                ck.fail(o, 'the pointee is not deleted when the last owner goes', 'ub')

    def kept(self, o, q, what='the pointee is disposed of while it is owned'):
        ck = self.ck
        if any(x[0] == 'deleter' for x in o.st.log):
            ck.fail(o, what + ' (deleter called)', 'ub')
        if isinstance(q, Ptr) and q.obj is not None and o.st.mem[q.obj].alive is not True:
            ck.fail(o, what, 'ub')

    def leaks(self, o, *live):
        """everything allocated is released, but what belongs to the live groups"""
        own = set()
        for s in live:
            own |= s
        self.ck.no_leak(o, own, 'the bookkeeping or the pointee is leaked')


def heap(st):
    return {k for k, o in st.mem.items() if o.kind == 'heap' and o.alive is True}


def run(ck):
    mod = ir.compile_ir('sptr.cpp')
    M = models()
    for pre, title in (('', 'shared_ptr'), ('a', 'shared_ptr<T[]>')):
        one(ck, Kind(ck, mod, M, pre, title), pre)
    derived(ck, Kind(ck, mod, M, 'b', 'shared_ptr'))
    return ck


def derived(ck, K):
    """the pointee is of a class derived from the one named, without a virtual destructor"""
    st = State()
    K.raw(st, 'a')
    st.mem['pa'] = Flat('heap', 16, {0: (8, val('pa')), 8: (8, val('pa.more'))}, tag='new')
    for o in K.go('construction from a derived pointee', 'h_bctor', st, [Ptr('a'), Ptr('pa')]):
        K.is_(o, 'a', ONE, Ptr('pa'))
        K.kept(o, Ptr('pa'))
        s = o.st.copy()
        s.frames = [{}]
        for d in K.go('destruction of the last owner of a derived pointee', 'h_bdtor', s, [Ptr('a')]):
            K.gone(d, Ptr('pa'), False, 'a')
            K.leaks(d)


def one(ck, K, pre):
    e = K.entry
    # default and null
    for fn in ('default', 'null') if not pre else ('default',):
        st = State()
        K.raw(st, 'a')
        for o in K.go(fn + ' construction', e(fn), st, [Ptr('a')]):
            K.is_(o, 'a', ZERO, NULL)
            K.leaks(o)
    for dele in (False, True):
        dn = ' (own deleter)' if dele else ''
        for pointee in (True, False):
            pn = '' if pointee else ' (null pointee)'
            sfx = dn + pn
            # construction
            st = State()
            K.raw(st, 'a')
            if pointee and not pre:
                q = K.pointee(st, 'pa')
            elif pointee:
                n = Lin.sym('n')
                st.cons = st.cons.add(n).add(BIG - n)
                r = [o for o in Engine(K.mod, K.M).run('h_anew', st, [n]) if o.kind == 'ret']
                if not r:
                    raise ir.Broken('no array pointee')
                st, q = r[0].st, r[0].val
            else:
                q = NULL
            args = [Ptr('a'), q]
            if dele:
                st.mem['da'] = Flat('ext', 8, {0: (8, Term('D.a', (), 'E'))})
                args.append(Ptr('da'))
            for o in K.go('construction' + sfx, e('ctord' if dele else 'ctor'), st, args):
                K.is_(o, 'a', ONE, q)
                K.kept(o, q)
                # the destructor of the only owner disposes of everything
                for o2, _ in ck.observe(o, K.mod, e('dtor'), [Ptr('a')], K.M):
                    K.gone(o2, vsubst(q, o2.st.elim), dele, 'a')
                    K.leaks(o2)
            for st, c, q in K.build(State(), 'a', dele, pointee):
                unary(ck, K, pre, st, c, q, dele, sfx)
                binary(ck, K, pre, st, c, q, dele, sfx)
    empties(ck, K, pre)


def unary(ck, K, pre, st0, c, q, dele, sfx):
    e = K.entry
    H = heap(st0)
    cell = {k for k in H if k != q.obj}
    st = st0.copy()
    for o in K.go('destruction' + sfx, e('dtor'), st, [Ptr('a')]):
        c1 = o.st.L(c)
        # last owner: everything goes; otherwise the count drops by one
        for o1 in ck_split(ck, o, eq0(c1 - 1)):
            if o1[1]:
                K.gone(o1[0], vsubst(q, o1[0].st.elim), dele, 'a')
                K.leaks(o1[0])
            else:
                oo = o1[0]
                K.kept(oo, q)
                oo.st.mem['z'] = vobj(st0.mem['a'], oo.st.elim)
                K.is_(oo, 'z', oo.st.L(c) - 1, q, 'the remaining owners')
    for fn, want in (('get', q), ('bool', BInt(q != NULL)), ('use_count', c)):
        for o in K.go(fn + sfx, e(fn), st0.copy(), [Ptr('a')]):
            ck.eq(o, o.val, vsubst(want, o.st.elim), fn)
            K.is_(o, 'a', c, q)
            K.kept(o, q)
    if q != NULL:
        if pre:
            i = Lin.sym('i')
            st = st0.copy()
            st.cons = st.cons.add(i).add(st.L(Lin.sym('a.n')) - 1 - i)
            for o in K.go('index' + sfx, e('index'), st, [Ptr('a'), i]):
                ck.eq(o, o.val, vsubst(q, o.st.elim).plus(o.st.L(i) * 8), 'the element designated by an index')
        else:
            for fn in ('deref', 'arrow'):
                for o in K.go(fn + sfx, e(fn), st0.copy(), [Ptr('a')]):
                    ck.eq(o, o.val, q, fn)
    if not pre:
        for o in K.go('get_deleter' + sfx, 'h_get_deleter', st0.copy(), [Ptr('a')]):
            if not dele:
                ck.eq(o, o.val, NULL, 'get_deleter for another deleter type')
            elif not isinstance(o.val, Ptr) or o.val.obj not in cell:
                ck.fail(o, 'get_deleter does not designate the stored deleter')
            else:
                w = o.st.mem[o.val.obj].cells.get(o.val.off.c, (8, RAW))[1]
                ck.eq(o, w, Term('D.a', (), 'E'), 'the deleter designated by get_deleter')
        for o in K.go('get_deleter, other type' + sfx, 'h_get_deleter2', st0.copy(), [Ptr('a')]):
            ck.eq(o, o.val, NULL, 'get_deleter for another deleter type')
    # copies
    for fn in ('copy', 'move') if not pre else ('copy',):
        st = st0.copy()
        K.raw(st, 'b')
        for o in K.go(fn + ' construction' + sfx, e(fn), st, [Ptr('b'), Ptr('a')]):
            moved = False
            if fn == 'move':
                # the source may be left empty or keep its share
                for o2, v in ck.observe(o, K.mod, e('use_count'), [Ptr('a')], K.M):
                    moved = v == ZERO
            if moved:
                K.is_(o, 'a', ZERO, NULL)
                K.is_(o, 'b', c, q)
            else:
                K.is_(o, 'a', c + 1, q)
                K.is_(o, 'b', c + 1, q)
            K.kept(o, q)
            K.leaks(o, H)
    if not pre:
        st = st0.copy()
        K.raw(st, 'b')
        st.mem['sub'] = Flat('ext', 8, {0: (8, val('sub'))})
        for o in K.go('aliasing construction' + sfx, e('alias'), st, [Ptr('b'), Ptr('a'), Ptr('sub')]):
            K.is_(o, 'a', c + 1, q)
            K.is_(o, 'b', c + 1, Ptr('sub'))
            K.kept(o, q)
            K.leaks(o, H)
            for fn in assigns(pre):
                st2 = o.st.copy()
                for o2 in K.go('%s from an aliasing owner of the same object' % fn + sfx, e(fn), st2, [Ptr('a'), Ptr('b')]):
                    n = None_or(ck, K, o2, 'b', o2.st.L(c) + 1)
                    K.is_(o2, 'a', n, Ptr('sub'))
                    K.kept(o2, q)
                    K.leaks(o2, H)
            ck.cur = K.title + ': aliasing construction' + sfx
            # and the alias disposes of the original pointee
            if True:
                for o2, _ in ck.observe(o, K.mod, e('dtor'), [Ptr('a')], K.M):
                    K.is_(o2, 'b', c, Ptr('sub'))
                    for o3 in ck_split(ck, o2, eq0(o2.st.L(c) - 1)):
                        if o3[1]:
                            for o4, _ in ck.observe(o3[0], K.mod, e('dtor'), [Ptr('b')], K.M):
                                K.gone(o4, vsubst(q, o4.st.elim), dele, 'a')
                                K.leaks(o4)


    if not pre:
        st = st0.copy()
        K.raw(st, 'b')
        for o in K.go('aliasing construction with a null pointer' + sfx, e('alias'), st, [Ptr('b'), Ptr('a'), NULL]):
            K.is_(o, 'a', c + 1, q)
            K.is_(o, 'b', c + 1, NULL)
            K.kept(o, q)
            K.leaks(o, H)


def vobj(ob, m):
    return ob.subst(m)


def ck_split(ck, o, c):
    """partition an outcome; -> [(outcome, truth)]"""
    r = []
    for cc, t in ((c, True), (cnot(c), False)):
        try:
            for s in assume(o.st, cc, False):
                r.append((Outcome(o.kind, s.copy(), o.val, o.loc), t))
        except Lost:
            pass
    return r


def assigns(pre):
    return ('assign', 'massign') if not pre else ('assign',)


def binary(ck, K, pre, st0, c, q, dele, sfx):
    e = K.entry
    H = heap(st0)
    for fn in assigns(pre):
        mv = fn == 'massign'
        nm = 'move assignment' if mv else 'assignment'
        # to itself
        for o in K.go('self ' + nm + sfx, e(fn), st0.copy(), [Ptr('a'), Ptr('a')]):
            K.is_(o, 'a', c, q)
            K.kept(o, q)
            K.leaks(o, H)
            ck.eq(o, o.val, Ptr('a'), 'result of the assignment')
        # within the group
        st = st0.copy()
        K.share(st, 'a', 'b')
        for o in K.go(nm + ' between owners of one object' + sfx, e(fn), st, [Ptr('a'), Ptr('b')]):
            K.is_(o, 'a', None_or(ck, K, o, 'b', c), q)
            K.kept(o, q)
            K.leaks(o, H)
        # from an empty pointer: a owner goes
        st = K.empty(st0.copy(), 'b')
        for o in K.go(nm + ' from an empty pointer' + sfx, e(fn), st, [Ptr('a'), Ptr('b')]):
            swapped = mv and kept_by(ck, K, o, 'b')
            if swapped:
                K.is_(o, 'b', c, q)
                K.is_(o, 'a', ZERO, NULL)
                K.leaks(o, H)
                continue
            K.is_(o, 'a', ZERO, NULL)
            K.is_(o, 'b', ZERO, NULL)
            released(ck, K, o, st0, c, q, dele, 'a', set())
        # to an empty pointer
        st = K.empty(st0.copy(), 'b')
        for o in K.go(nm + ' to an empty pointer' + sfx, e(fn), st, [Ptr('b'), Ptr('a')]):
            n = c if mv and not kept_by(ck, K, o, 'a') else c + 1
            K.is_(o, 'b', n, q)
            K.kept(o, q)
            K.leaks(o, H)
        # between different groups
        for st, c2, q2 in K.build(st0.copy(), 'b', dele, True):
            HB = heap(st) - H
            for o in K.go(nm + ' of another owner' + sfx, e(fn), st, [Ptr('a'), Ptr('b')]):
                if mv and not kept_same(ck, K, o, 'b', q2):
                    K.is_(o, 'a', c2, q2)
                    for o2, v in ck.observe(o, K.mod, e('use_count'), [Ptr('b')], K.M):
                        if v == ZERO:
                            released(ck, K, o2, st0, c, q, dele, 'a', HB)
                        else:
                            K.is_(o2, 'b', c, q)
                    continue
                K.is_(o, 'a', c2 + 1, q2)
                K.is_(o, 'b', c2 + 1, q2)
                released(ck, K, o, st0, c, q, dele, 'a', HB)
                ck.eq(o, o.val, Ptr('a'), 'result of the assignment')


def kept_by(ck, K, o, name):
    return all(v != ZERO for _, v in ck.observe(o, K.mod, K.entry('use_count'), [Ptr(name)], K.M))


def kept_same(ck, K, o, name, q):
    return all(v == vsubst(q, o2.st.elim) for o2, v in ck.observe(o, K.mod, K.entry('get'), [Ptr(name)], K.M))


def None_or(ck, K, o, name, c):
    """expected count of the group: one fewer when `name` was emptied by a move"""
    return c if kept_by(ck, K, o, name) else c - 1


def released(ck, K, o, st0, c, q, dele, name, others):
    """one owner of the group went away"""
    for o1, last in ck_split(ck, o, eq0(o.st.L(c) - 1)):
        if last:
            K.gone(o1, vsubst(q, o1.st.elim), dele, name)
            K.leaks(o1, others)
        else:
            K.kept(o1, vsubst(q, o1.st.elim))
            o1.st.mem['z'] = vobj(st0.mem['a'], o1.st.elim)
            K.is_(o1, 'z', o1.st.L(c) - 1, q, 'the remaining owners')


def empties(ck, K, pre):
    e = K.entry
    st0 = K.empty(State(), 'a')
    for o in K.go('destruction (empty)', e('dtor'), st0.copy(), [Ptr('a')]):
        K.leaks(o)
    for fn, want in (('get', NULL), ('bool', BInt(False)), ('use_count', ZERO)):
        for o in K.go(fn + ' (empty)', e(fn), st0.copy(), [Ptr('a')]):
            ck.eq(o, o.val, want, fn)
    for fn in ('copy', 'move') if not pre else ('copy',):
        st = st0.copy()
        K.raw(st, 'b')
        for o in K.go(fn + ' construction (empty)', e(fn), st, [Ptr('b'), Ptr('a')]):
            K.is_(o, 'a', ZERO, NULL)
            K.is_(o, 'b', ZERO, NULL)
            K.leaks(o)
    for fn in assigns(pre):
        for o in K.go('self assignment (empty)', e(fn), st0.copy(), [Ptr('a'), Ptr('a')]):
            K.is_(o, 'a', ZERO, NULL)
            K.leaks(o)
        st = K.empty(st0.copy(), 'b')
        for o in K.go('assignment (both empty)', e(fn), st, [Ptr('a'), Ptr('b')]):
            K.is_(o, 'a', ZERO, NULL)
            K.is_(o, 'b', ZERO, NULL)
            K.leaks(o)
