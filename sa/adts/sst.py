"""input streams over strings: I01"""
from .chain import *
from .str import Str, ch, chars, cstr
from .cct import Unroll


class SEngine(Unroll):
    """the loops of the stream buffer end after a couple of rounds"""
    LIMIT = 4


def bits_of(v):
    return v.c if isinstance(v, Lin) and v.is_const() else None


class Stream:
    def __init__(self, ck):
        self.ck = ck
        self.mod = ir.compile_ir('sst.cpp')
        self.M = models()
        self.S = Str(self.mod, layout_roles=[('m_size', 'h_stsize'), ('m_capacity', 'h_stcapacity'), ('m_p', 'h_stdata')])
        self.size = max(t['size'] for t in self.mod.type_prefix('basic_stringstream') + self.mod.type_prefix('basic_istringstream'))

        def mk(mod, M):
            e = SEngine(mod, M)
            e.LIMIT = 6
            return e
        ck.make_engine = mk
        self.bit = {}
        for n in ('bad', 'eof', 'fail'):
            self.bit[n] = self.constant('h_b_' + n)
        self.mode = {n: self.constant('h_m_' + n) for n in ('in', 'out', 'ate', 'app')}

    def constant(self, entry):
        outs = [o.val for o in Engine(self.mod, self.M).run(entry, State(), []) if o.kind == 'ret']
        if len(outs) != 1 or bits_of(outs[0]) is None:
            raise ir.Broken('%s is not a constant' % entry)
        return outs[0].c

    def go(self, name, entry, st, args):
        return self.ck.returns(self.ck.run(name, self.mod, entry, st, args, self.M))

    def see(self, o, entry, args=(Ptr('is'),)):
        return self.ck.observe(o, self.mod, entry, list(args), self.M)

    # ------------------------------------------------------------------ state
    def state(self, o, bits, count, what, k='i'):
        """the bits and count an outcome must show"""
        b = self.bit
        for x, v in self.see(o, 'h_%srdstate' % k):
            self.ck.eq(x, v, L(bits), what + ': state bits')
        for x, v in self.see(o, 'h_%sgcount' % k):
            self.ck.eq(x, v, count, what + ': count')
        q = {'good': bits == 0, 'eof': bool(bits & b['eof']), 'fail': bool(bits & (b['bad'] | b['fail'])),
             'bool': not bits & (b['bad'] | b['fail']), 'not': bool(bits & (b['bad'] | b['fail']))}
        for n, want in q.items():
            for x, v in self.see(o, 'h_%s%s' % (k, n)):
                self.boolean(x, v, want, '%s: %s()' % (what, n))

    def boolean(self, o, v, want, what):
        c = v.cond if isinstance(v, BInt) else cnot(eq0(v)) if isinstance(v, Lin) else None
        if c is None:
            self.ck.obl += 1
            self.ck.und('%s: %r' % (what, v), o.loc)
        else:
            self.ck.prove(o, c if want else cnot(c), '%s is %s' % (what, not want))

    def rest(self, o, src, pos, size, what, k='i'):
        """what can still be read is src[pos..size)"""
        ck = self.ck
        n = Lin.sym(fresh('rest'))
        st = o.st.copy()
        st.cons = st.cons.add(n).add((1 << 40) - n)
        st.mem['rest'] = Arr('ext', 'lin', 1, n, {0: (1, ((ZERO, n, ch('rest', I)),))}, True)
        for x, _ in self.see(Outcome(o.kind, st, None, o.loc), 'h_%sclear0' % k):
            for y, _ in self.see(x, 'h_%sread' % k, (Ptr('is'), Ptr('rest'), n)):
                p, z, m = y.st.L(L(pos)), y.st.L(L(size)), y.st.L(n)
                left = z - p
                short = ge(m - left)
                for t in assume(y.st, short, False):
                    w = Outcome(y.kind, t, None, y.loc)
                    e = t.L
                    self.chars(w, 'rest', [(e(left), src, e(p)), (e(m - left), 'rest', e(left))], what + ': what is left to read')
                    for z2, v in self.see(w, 'h_%sgcount' % k):
                        ck.eq(z2, v, z2.st.L(left), what + ': number of characters left')
                for t in assume(y.st, cnot(short), False):
                    w = Outcome(y.kind, t, None, y.loc)
                    e = t.L
                    self.chars(w, 'rest', [(e(m), src, e(p))], what + ': what is left to read')

    def chars(self, o, obj, parts, what):
        """the array holds the given runs: (count, source, first index in it)"""
        exp = []
        for cnt, src, first in parts:
            exp.append((cnt, lambda i, src=src, first=first: ch(src, i + first)))
        self.ck.seq(o, self.ck.cells(o, obj, 0, 1), ZERO, exp, what)

    def owned(self, o, allow=()):
        """the heap objects reachable from the stream are its string's"""

    # ------------------------------------------------------------------ histories
    def made(self, k='i', name='s', st=None):
        """a stream over the string"""
        st = st or State()
        n, cap = self.S.make(st, name)
        st.mem['is'] = Flat('ext', self.size, {})
        cur = self.ck.cur
        outs = self.go('construction', 'h_%sctor' % k, st, [Ptr('is'), Ptr(name)])
        self.ck.cur = cur or 'construction'
        return n, outs

    def positioned(self, k='i'):
        """a stream over a string of n characters of which k have been read"""
        n, outs = self.made(k)
        p = Lin.sym('pos')
        for o in outs:
            st = o.st.copy()
            e = st.L(n)
            st.cons = st.cons.add(p).add(e - p)
            st.mem['scratch'] = Arr('ext', 'lin', 1, p, {0: (1, ((ZERO, p, ch('scratch', I)),))}, True)
            for x, v in self.see(Outcome('ret', st, None, o.loc), 'h_%sread' % k, (Ptr('is'), Ptr('scratch'), p)):
                yield x, x.st.L(n), x.st.L(p)

    def with_bits(self, k='i', bits=None):
        for o, n, p in self.positioned(k):
            for b in (range(8) if bits is None else bits):
                bb = sum(v for i, v in enumerate(self.bit.values()) if b >> i & 1)
                for x, _ in self.see(o, 'h_%sclear' % k, (Ptr('is'), L(bb))):
                    yield x, x.st.L(n), x.st.L(p), bb


def build(X, k):
    """construction, str() and destruction"""
    ck = X.ck
    cls = {'i': 'istringstream', 's': 'stringstream'}[k]
    n, outs = X.made(k)
    for o in outs:
        w = '%s from a string' % cls
        X.state(o, 0, ZERO, w, k)
        fresh_ios(X, o, w, k)
        X.rest(o, 's', ZERO, o.st.L(n), w, k)
        X.S.untouched(ck, o, 's', made_from(X))
        for x, _ in X.see(o, 'h_%sdtor' % k):
            ck.no_leak(x, {'s.buf'})
    st = State()
    st.mem['is'] = Flat('ext', X.size, {})
    for o in X.go('default construction', 'h_%sctor0' % k, st, [Ptr('is')]):
        w = 'default %s' % cls
        fresh_ios(X, o, w, k)
        X.state(o, 0, ZERO, w, k)
        X.rest(o, 's', ZERO, ZERO, w, k)
        for x, _ in X.see(o, 'h_%sdtor' % k):
            ck.no_leak(x, set())
    m = X.mode
    for names in (('in',), ('out',), ('in', 'out'), ('in', 'ate'), ('out', 'app'), ('in', 'out', 'app'), ('in', 'out', 'ate')):
        v = sum(m[i] for i in names)
        st = State()
        n, cap = X.S.make(st, 's')
        if 'ate' in names or 'app' in names:
            st.cons = st.cons.add((1 << 31) - 1 - n)
        st.mem['is'] = Flat('ext', X.size, {})
        w = '%s with mode %s' % (cls, '|'.join(names))
        for o in X.go(w, 'h_%sctorm' % k, st, [Ptr('is'), Ptr('s'), L(v)]):
            X.state(o, 0, ZERO, w, k)
            X.rest(o, 's', ZERO, o.st.L(n) if k == 'i' or 'in' in names else ZERO, w, k)
            for x, _ in X.see(o, 'h_%sdtor' % k):
                ck.no_leak(x, {'s.buf'})
    ck.cur = '%s: str' % cls
    for o, n, p in X.positioned(k):
        st = o.st.copy()
        st.mem['out'] = Flat('ext', X.S.size, {})
        for x, _ in X.see(Outcome('ret', st, None, o.loc), 'h_%sstr' % k, (Ptr('out'), Ptr('is'))):
            X.S.check(ck, x, 'out', [(x.st.L(n), lambda i: ch('s', i))], 'str()')
            X.rest(x, 's', x.st.L(p), x.st.L(n), 'after str()', k)
    ck.cur = '%s: str(string)' % cls
    for o, n, p, bits in X.with_bits(k):
        st = o.st.copy()
        tn, _ = X.S.make(st, 't')
        st.cons = st.cons.add((1 << 40) - tn)
        for x, _ in X.see(Outcome('ret', st, None, o.loc), 'h_%ssetstr' % k, (Ptr('is'), Ptr('t'))):
            X.state(x, bits, x.st.L(p), 'after str(string)', k)
            X.rest(x, 't', ZERO, x.st.L(tn), 'after str(string)', k)
            for y, _ in X.see(x, 'h_%sdtor' % k):
                ck.no_leak(y, {'s.buf', 't.buf'})


def fresh_ios(X, o, w, k):
    """no exception is asked for and nothing is tied"""
    for x, v in X.see(o, 'h_%sexc' % k):
        X.ck.eq(x, v, ZERO, w + ': exception mask')
    for x, v in X.see(o, 'h_%stie' % k):
        X.ck.eq(x, v, NULL, w + ': tie()')


def made_from(X):
    st = State()
    X.S.make(st, 's')
    return st


def reading(X, k):
    ck = X.ck
    B = X.bit
    cls = {'i': 'istringstream', 's': 'stringstream'}[k]
    # get
    ck.cur = cls + ': get'
    for o, n, p, bits in X.with_bits(k):
        st = o.st.copy()
        st.mem['c'] = Flat('ext', 1, {0: (1, ch('old', ZERO))})
        for x, v in X.see(Outcome('ret', st, None, o.loc), 'h_%sget' % k, (Ptr('is'), Ptr('c'))):
            at_ = lambda t: t.mem['c'].cells.get(0, (1, RAW))[1]
            ck.eq(x, v, Ptr('is'), 'get: result')
            if bits:
                X.state(x, bits | B['fail'], ZERO, 'get from a stream that is not good', k)
                ck.eq(x, at_(x.st), ch('old', ZERO), 'get from a stream that is not good: the character')
                X.rest(x, 's', x.st.L(p), x.st.L(n), 'get from a stream that is not good', k)
                continue
            more = ge(x.st.L(n) - x.st.L(p) - 1)
            for t in assume(x.st, more, False):
                y = Outcome('ret', t, None, x.loc)
                X.state(y, 0, ONE, 'get', k)
                ck.eq(y, at_(t), ch('s', t.L(p)), 'get: the character')
                X.rest(y, 's', t.L(p) + 1, t.L(n), 'get', k)
            for t in assume(x.st, cnot(more), False):
                y = Outcome('ret', t, None, x.loc)
                X.state(y, B['eof'] | B['fail'], ZERO, 'get at the end', k)
                ck.eq(y, at_(t), ch('old', ZERO), 'get at the end: the character')
                X.rest(y, 's', t.L(p), t.L(n), 'get at the end', k)
    # unget
    ck.cur = cls + ': unget'
    for o, n, p, bits in X.with_bits(k):
        for x, v in X.see(o, 'h_%sunget' % k):
            ck.eq(x, v, Ptr('is'), 'unget: result')
            left = bits & ~B['eof']
            if left:
                X.state(x, left | B['fail'], ZERO, 'unget on a stream that is not good', k)
                X.rest(x, 's', x.st.L(p), x.st.L(n), 'unget on a stream that is not good', k)
                continue
            more = ge(x.st.L(p) - 1)
            for t in assume(x.st, more, False):
                y = Outcome('ret', t, None, x.loc)
                X.state(y, 0, ZERO, 'unget', k)
                X.rest(y, 's', t.L(p) - 1, t.L(n), 'unget', k)
            for t in assume(x.st, cnot(more), False):
                y = Outcome('ret', t, None, x.loc)
                X.state(y, B['bad'], ZERO, 'unget at the beginning', k)
                X.rest(y, 's', t.L(p), t.L(n), 'unget at the beginning', k)
    # read
    ck.cur = cls + ': read'
    want = Lin.sym('want')
    for o, n, p, bits in X.with_bits(k):
        st = o.st.copy()
        st.cons = st.cons.add(want).add((1 << 40) - want)
        st.mem['b'] = Arr('ext', 'lin', 1, want, {0: (1, ((ZERO, want, ch('b', I)),))}, True)
        for x, v in X.see(Outcome('ret', st, None, o.loc), 'h_%sread' % k, (Ptr('is'), Ptr('b'), want)):
            ck.eq(x, v, Ptr('is'), 'read: result')
            if bits:
                X.state(x, bits | B['fail'], ZERO, 'read from a stream that is not good', k)
                X.chars(x, 'b', [(x.st.L(want), 'b', ZERO)], 'read from a stream that is not good: the buffer')
                X.rest(x, 's', x.st.L(p), x.st.L(n), 'read from a stream that is not good', k)
                continue
            left = n - p
            enough = ge(x.st.L(left) - x.st.L(want))
            for t in assume(x.st, enough, False):
                y = Outcome('ret', t, None, x.loc)
                e = t.L
                X.state(y, 0, e(want), 'read', k)
                X.chars(y, 'b', [(e(want), 's', e(p))], 'read: the buffer')
                X.rest(y, 's', e(p) + e(want), e(n), 'read', k)
            for t in assume(x.st, cnot(enough), False):
                y = Outcome('ret', t, None, x.loc)
                e = t.L
                X.state(y, B['eof'] | B['fail'], e(left), 'read beyond the end', k)
                X.chars(y, 'b', [(e(left), 's', e(p)), (e(want) - e(left), 'b', e(left))], 'read beyond the end: the buffer')
                X.rest(y, 's', e(n), e(n), 'read beyond the end', k)


def flags(X, k):
    ck = X.ck
    ck.cur = 'state bits'
    masks = [sum(v for i, v in enumerate(X.bit.values()) if b >> i & 1) for b in range(8)]
    for o, n, p in X.positioned(k):
        for a in masks:
            for x, _ in X.see(o, 'h_%sclear' % k, (Ptr('is'), L(a))):
                X.state(x, a, x.st.L(p), 'after clear(%d)' % a, k)
                for b in masks:
                    for y, _ in X.see(x, 'h_%ssetstate' % k, (Ptr('is'), L(b))):
                        for z, v in X.see(y, 'h_%srdstate' % k):
                            ck.eq(z, v, L(a | b), 'after setstate(%d) from %d' % (b, a))
        break
    # the exception mask
    for o, n, p in X.positioned(k):
        for mask in masks:
            for a in masks:
                st = o.st.copy()
                for x, _ in X.see(Outcome('ret', st, None, o.loc), 'h_%sexceptions' % k, (Ptr('is'), L(mask))):
                    for y, v in X.see(x, 'h_%sexc' % k):
                        ck.eq(y, v, L(mask), 'the exception mask')
                    for q in ck.run('clear(%d) with exceptions(%d)' % (a, mask), X.mod, 'h_%sclear' % k, x.st, [Ptr('is'), L(a)], X.M):
                        if (q.kind == 'throw') != bool(mask & a):
                            ck.fail(q, 'clear() throws' if q.kind == 'throw' else 'clear() does not throw')
                        ck.obl += 1
                        ck.proved += 1
        break


def unattached(X):
    """a stream without a buffer is bad"""
    ck = X.ck
    st = State()
    st.mem['is'] = Flat('ext', X.size, {})
    for o in X.go('construction without a buffer', 'h_null', st, [Ptr('is')]):
        X.state(o, X.bit['bad'], ZERO, 'without a buffer')
        for x, _ in X.see(o, 'h_iclear0'):
            X.state(x, X.bit['bad'], ZERO, 'without a buffer, after clear()')


def masks(X):
    return [sum(v for i, v in enumerate(X.bit.values()) if b >> i & 1) for b in range(8)]


def bare(X):
    """every bit can be set on a stream without a buffer, which stays bad"""
    ck = X.ck
    ck.cur = 'state bits without a buffer'
    B = X.bit
    st = State()
    st.mem['is'] = Flat('ext', X.size, {})
    for o in X.go('construction without a buffer', 'h_null', st, [Ptr('is')]):
        for a in masks(X):
            for x, _ in X.see(o, 'h_nclear', (Ptr('is'), L(a))):
                X.state(x, a | B['bad'], ZERO, 'without a buffer, after clear(%d)' % a)
            for x, _ in X.see(o, 'h_nsetstate', (Ptr('is'), L(a))):
                X.state(x, a | B['bad'], ZERO, 'without a buffer, after setstate(%d)' % a)
        for mask in masks(X):
            w = 'exceptions(%d) without a buffer' % mask
            for x in throws(X, o, 'h_bexceptions', (Ptr('is'), L(mask)), bool(mask & B['bad']), w):
                for a in masks(X):
                    for y in throws(X, x, 'h_nclear', (Ptr('is'), L(a)), bool(mask & (a | B['bad'])), 'clear(%d) after %s' % (a, w)):
                        X.state(y, a | B['bad'], ZERO, 'clear(%d) after %s' % (a, w))
        st = o.st.copy()
        st.mem['c'] = Flat('ext', 1, {0: (1, ch('old', ZERO))})
        for x, v in X.see(Outcome('ret', st, None, o.loc), 'h_bget', (Ptr('is'), Ptr('c'))):
            X.state(x, B['bad'] | B['fail'], ZERO, 'get without a buffer')
        for x, v in X.see(o, 'h_bunget', (Ptr('is'),)):
            X.state(x, B['bad'] | B['fail'], ZERO, 'unget without a buffer')


def throws(X, o, entry, args, want, what):
    """run an operation that must throw exactly if `want`; -> the outcomes"""
    ck = X.ck
    r = []
    for q in ck.run(what, X.mod, entry, o.st, list(args), X.M):
        if q.kind not in ('ret', 'throw'):
            continue
        ck.obl += 1
        ck.proved += 1
        if (q.kind == 'throw') != want:
            ck.proved -= 1
            ck.fail(q, '%s %s' % (what, 'throws' if q.kind == 'throw' else 'does not throw'))
        r.append(Outcome('ret', q.st, q.val, q.loc))
    return r


def masked(X, k='i'):
    """with an exception mask, an operation throws exactly when it ends in one
    of its states, after it has done everything else"""
    ck = X.ck
    B = X.bit
    ck.cur = 'exception mask'
    want = Lin.sym('want')
    for o, n, p in X.positioned(k):
        for mask in masks(X):
            w = ' with exceptions(%d)' % mask
            for x, _ in X.see(o, 'h_%sexceptions' % k, (Ptr('is'), L(mask))):
                for a in masks(X):
                    for y in throws(X, x, 'h_%ssetstate' % k, (Ptr('is'), L(a)), bool(mask & a), 'setstate(%d)' % a + w):
                        X.state(y, a, y.st.L(p), 'after setstate(%d)%s' % (a, w), k)
                e = B['eof'] | B['fail']
                more = ge(x.st.L(n) - x.st.L(p) - 1)
                for end, c in ((False, more), (True, cnot(more))):
                    for t in assume(x.st, c, False):
                        t.mem['c'] = Flat('ext', 1, {0: (1, ch('old', ZERO))})
                        y = Outcome('ret', t, None, x.loc)
                        for z in throws(X, y, 'h_%sget' % k, (Ptr('is'), Ptr('c')), end and bool(mask & e), 'get' + (' at the end' if end else '') + w):
                            X.state(z, e if end else 0, ZERO if end else ONE, 'get' + w, k)
                start = ge(ZERO - x.st.L(p))
                for beg, c in ((True, start), (False, cnot(start))):
                    for t in assume(x.st, c, False):
                        y = Outcome('ret', t, None, x.loc)
                        for z in throws(X, y, 'h_%sunget' % k, (Ptr('is'),), beg and bool(mask & B['bad']), 'unget' + (' at the beginning' if beg else '') + w):
                            X.state(z, B['bad'] if beg else 0, ZERO, 'unget' + w, k)
                st = x.st.copy()
                e2 = st.L(want)
                st.cons = st.cons.add(e2).add((1 << 40) - e2)
                st.mem['b'] = Arr('ext', 'lin', 1, e2, {0: (1, ((ZERO, e2, ch('b', I)),))}, True)
                enough = ge(st.L(n) - st.L(p) - e2)
                for short, c in ((False, enough), (True, cnot(enough))):
                    for t in assume(st, c, False):
                        y = Outcome('ret', t, None, x.loc)
                        for z in throws(X, y, 'h_%sread' % k, (Ptr('is'), Ptr('b'), t.L(e2)), short and bool(mask & e), 'read' + (' beyond the end' if short else '') + w):
                            X.state(z, e if short else 0, z.st.L(n) - z.st.L(p) if short else z.st.L(e2), 'read' + w, k)
        # the mask set while a bit is already there
        for a in masks(X):
            for x, _ in X.see(o, 'h_%sclear' % k, (Ptr('is'), L(a))):
                for mask in masks(X):
                    what = 'exceptions(%d) in state %d' % (mask, a)
                    for y in throws(X, x, 'h_%sexceptions' % k, (Ptr('is'), L(mask)), bool(mask & a), what):
                        X.state(y, a, y.st.L(p), 'after ' + what, k)
                        for z, v in X.see(y, 'h_%sexc' % k):
                            ck.eq(z, v, L(mask), 'the mask after ' + what)
        break


PIECES = 'ABC'


def userbuf(X):
    """a stream over a buffer of the user's that delivers its characters in
    pieces, and may fail"""
    ck = X.ck
    B = X.bit
    cb = max(t['size'] for t in X.mod.type_prefix('struct.CB') or X.mod.type_prefix('CB'))

    def made(fails, nx=3):
        st = State()
        args = [Ptr('cb')]
        ns = []
        for q in PIECES:
            n = chars(st, q)
            st.cons = st.cons.add(n - 1)
            ns.append(n)
            args += [Ptr(q), n]
        st.mem['cb'] = Flat('ext', cb, {})
        st.mem['is'] = Flat('ext', X.size, {})
        for o in X.go("construction over a user's buffer", 'h_cb', st, args + [L(fails)]):
            for x, _ in X.see(o, 'h_bi', (Ptr('is'), Ptr('cb'))):
                yield x, ns

    ck.cur = "a user's buffer"
    for o, ns in made(-1):
        X.state(o, 0, ZERO, "a stream over a user's buffer", 'b')
        for x, v in X.see(o, 'h_brdbuf'):
            ck.eq(x, v, Ptr('cb'), 'rdbuf()')
        for x, v in X.see(o, 'h_u_sync'):
            ck.eq(x, v, ZERO, 'pubsync()')
    # read across the pieces
    want = Lin.sym('want')
    for fails in (-1, 0, 1, 2, 3):
        ck.cur = "a user's buffer" + ('' if fails < 0 else ' that fails at piece %d' % fails) + ': read'
        for o, ns in made(fails):
            st = o.st.copy()
            st.cons = st.cons.add(want).add((1 << 40) - want)
            st.mem['b'] = Arr('ext', 'lin', 1, want, {0: (1, ((ZERO, want, ch('b', I)),))}, True)
            total = ZERO
            for i, n in enumerate(ns):
                if fails < 0 or i < fails:
                    total = total + n
            for x, v in X.see(Outcome('ret', st, None, o.loc), 'h_bread', (Ptr('is'), Ptr('b'), want)):
                cuts = [x.st.L(ns[0]), x.st.L(ns[0] + ns[1]), x.st.L(ns[0] + ns[1] + ns[2])]
                cases = [x.st]
                for c in cuts:
                    cases = [t for s in cases for k in (ge(c - want), cnot(ge(c - want))) for t in assume(s, csubst(k, s.elim) if s.elim else k, False)]
                for t in cases:
                    y = Outcome('ret', t, None, x.loc)
                    e = t.L
                    enough = decide(t, ge(e(total) - e(want)))
                    if enough is None:
                        continue
                    parts, left = [], e(want)
                    for i, n in enumerate(ns):
                        if fails >= 0 and i >= fails:
                            break
                        whole = decide(t, ge(left - e(n)))
                        if not whole:
                            parts.append((left, PIECES[i], ZERO))
                            left = ZERO
                            break
                        parts.append((e(n), PIECES[i], ZERO))
                        left = left - e(n)
                    if enough:
                        X.state(y, 0, e(want), 'read from pieces', 'b')
                        X.chars(y, 'b', parts, 'read from pieces: the buffer')
                    elif fails < 0:
                        X.state(y, B['eof'] | B['fail'], e(total), 'read beyond the last piece', 'b')
                        X.chars(y, 'b', parts + [(left, 'b', e(total))], 'read beyond the last piece: the buffer')
                    else:
                        for z, v in X.see(y, 'h_brdstate'):
                            ck.eq(z, v, L(B['bad']), 'read from a buffer that throws: state bits')
    # the same failure reported to a stream that asks for it
    for mask in masks(X):
        w = ' with exceptions(%d)' % mask
        for fails, op in ((0, 'get'), (0, 'read'), (-2, 'unget')):
            ck.cur = "a user's buffer that fails: " + op
            for o, ns in made(fails):
                for x, _ in X.see(o, 'h_bexceptions', (Ptr('is'), L(mask))):
                    st = x.st.copy()
                    st.mem['c'] = Flat('ext', 1, {0: (1, ch('old', ZERO))})
                    y = Outcome('ret', st, None, x.loc)
                    args = {'get': (Ptr('is'), Ptr('c')), 'read': (Ptr('is'), Ptr('c'), ONE), 'unget': (Ptr('is'),)}[op]
                    bad = B['bad'] | (B['fail'] if op == 'get' else 0)
                    # libstdc++ reports the exception itself for the bad bit
                    for z in throws(X, y, 'h_b' + op, args, bool(mask & bad), op + ' from a buffer that throws' + w):
                        for q, v in X.see(z, 'h_brdstate'):
                            if mask & B['bad']:
                                ck.prove(q, bit_set(v, B['bad']), '%s from a buffer that throws%s does not set the bad bit' % (op, w))
                            else:
                                ck.eq(q, v, L(bad), '%s from a buffer that throws%s: state bits' % (op, w))
                        for q, v in X.see(z, 'h_bgcount'):
                            ck.eq(q, v, ZERO, '%s from a buffer that throws: count' % op)
    # one character at a time
    uc = lambda src, i: ('uc', src, i)
    for o, ns in made(-1):
        stepper(X, o, ns)


def bit_set(v, b):
    if isinstance(v, Lin) and v.is_const():
        return bool(v.c & b)
    return False


def stepper(X, o, ns):
    """the operations of the buffer itself, in the first piece, at its end and at the last end"""
    ck = X.ck
    for place in ('start', 'inside', 'end of piece', 'very end'):
        ck.cur = 'stream buffer, ' + place
        st = o.st.copy()
        pos = Lin.sym('pos')
        st.cons = st.cons.add(pos)
        tot = ns[0] + ns[1] + ns[2]
        if place == 'start':
            st.cons = st.cons.add(ZERO - pos)
        elif place == 'inside':
            st.cons = st.cons.add(pos - 1).add(ns[0] - 1 - pos)
        elif place == 'end of piece':
            st.cons = st.cons.add(pos - ns[0]).add(ns[0] - pos)
        else:
            st.cons = st.cons.add(pos - tot).add(tot - pos)
        st.mem['scratch'] = Arr('ext', 'lin', 1, pos, {0: (1, ((ZERO, pos, ch('scratch', I)),))}, True)
        for x, v in X.see(Outcome('ret', st, None, o.loc), 'h_u_getn', (Ptr('is'), Ptr('scratch'), pos)):
            ck.eq(x, v, x.st.L(pos), 'sgetn: result')
            e = x.st.L
            EOF = L(-1)
            last = place == 'very end'
            cur = ('A', e(pos)) if place in ('start', 'inside') else ('B', ZERO)
            what = ck.cur
            for op, want in (('getc', None if last else cur), ('bumpc', None if last else cur)):
                for y, v in X.see(x, 'h_u_' + op):
                    code(X, y, v, want, 's%s: result' % op)
                    if want and op == 'bumpc':
                        # back again: the same character
                        for z, v in X.see(y, 'h_u_ungetc'):
                            code(X, z, v, want, 'sungetc after sbumpc: result')
                            for z2, v in X.see(z, 'h_u_getc'):
                                code(X, z2, v, want, 'sgetc after sungetc: result')
                    elif want:
                        for z, v in X.see(y, 'h_u_getc'):
                            code(X, z, v, want, 'sgetc twice: result')
            if place in ('start', 'inside'):
                for y, v in X.see(x, 'h_u_nextc'):
                    more = ge(y.st.L(ns[0]) - y.st.L(pos) - 2)
                    for c, w in ((more, ('A', pos + 1)), (cnot(more), ('B', ZERO))):
                        for t in assume(y.st, c, False):
                            z = Outcome('ret', t, None, y.loc)
                            w2 = (w[0], t.L(w[1]))
                            code(X, z, vsubst(v, t.elim), w2, 'snextc: result')
                            for z2, v2 in X.see(z, 'h_u_getc'):
                                code(X, z2, v2, (w2[0], z2.st.L(w2[1])), 'sgetc after snextc: result')
            elif last:
                for y, v in X.see(x, 'h_u_nextc'):
                    code(X, y, v, None, 'snextc at the end: result')
            for y, v in X.see(x, 'h_u_ungetc'):
                if place == 'start':
                    code(X, y, v, None, 'sungetc at the beginning: result')
                elif place in ('inside', 'end of piece'):
                    code(X, y, v, ('A', y.st.L(pos) - 1), 'sungetc: result')


def code(X, o, v, want, what):
    """the character code `v` is that of src[i], or end of file"""
    ck = X.ck
    if want is None:
        ck.eq(o, v, L(-1), what)
        return
    src, i = want
    t = ch(src, o.st.L(i))
    eng = Engine(X.mod, X.M)
    exp = eng.norm(o.st, eng.cast(o.st, 'zext', t, 8, 32), 32, True)
    if isinstance(v, Lin):
        v = eng.norm(o.st, v, 32, True)
    ck.eq(o, v, exp, what)


def files(X):
    ck = X.ck
    st = State()
    n = chars(st, 'c')
    size, count = Lin.sym('size'), Lin.sym('want')
    for o in X.go('fmemopen', 'h_f_open', st, [Ptr('c'), n]):
        if not isinstance(o.val, Ptr) or o.val.obj is None:
            ck.fail(o, 'fmemopen returns no stream')
            continue
        f = o.val
        st = o.st.copy()
        st.cons = st.cons.add(count).add((1 << 40) - count)
        st.mem['b'] = Arr('ext', 'lin', 1, count, {0: (1, ((ZERO, count, ch('b', I)),))}, True)
        ck.cur = 'fread'
        for x, v in X.see(Outcome('ret', st, None, o.loc), 'h_f_read', (Ptr('b'), ONE, count, f)):
            e = x.st.L
            enough = ge(e(n) - e(count))
            for t in assume(x.st, enough, False):
                y = Outcome('ret', t, None, x.loc)
                ck.eq(y, vsubst(v, t.elim), t.L(count), 'fread: result')
                X.chars(y, 'b', [(t.L(count), 'c', ZERO)], 'fread: the buffer')
            for t in assume(x.st, cnot(enough), False):
                y = Outcome('ret', t, None, x.loc)
                ck.eq(y, vsubst(v, t.elim), t.L(n), 'fread beyond the end: result')
                X.chars(y, 'b', [(t.L(n), 'c', ZERO), (t.L(count) - t.L(n), 'b', t.L(n))], 'fread beyond the end: the buffer')
            ck.cur = 'fclose'
            for y, v in X.see(x, 'h_f_close', (f,)):
                ck.eq(y, v, ZERO, 'fclose: result')
                ck.no_leak(y, set())
            ck.cur = 'fread'


def run(ck):
    X = Stream(ck)
    for k in 'is':
        build(X, k)
        reading(X, k)
    flags(X, 'i')
    masked(X)
    unattached(X)
    bare(X)
    userbuf(X)
    files(X)
