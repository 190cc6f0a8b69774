"""deque: D01 (storage and lifetime), D02 (sequence semantics)"""
from .chain import *
from . import ghost
from ..layout import *

ROLES = ('m_front', 'm_back', 'm_front_chunk', 'm_back_chunk', 'm_size', 'm_chunks')


class Deq:
    def __init__(self, ck, mod, M):
        self.ck, self.mod, self.M = ck, mod, M
        t = mod.type_prefix('deque')
        v = mod.type_prefix('vector')
        if not t or not v:
            raise ir.Broken('deque or vector not found')
        self.size = t[0]['size']
        self.of, self.ob, self.ofc, self.obc, self.on, self.oc = in_order(mod, t[0], ROLES)
        self.vn, self.vcap, self.vp = (o + self.oc for o in layout(mod, M, v[0], [('m_size', 'h_vsize'), ('m_capacity', 'h_vcapacity'), ('m_p', 'h_vdata')]))
        self.known = set(ROLES) <= set(flat_names(mod, t[0]))
        self.per = self.chunk_cells()

    def chunk_cells(self):
        """cells per chunk: what a new deque allocates"""
        st = State()
        st.mem['d'] = Flat('ext', self.size, {})
        outs = [o for o in Engine(self.mod, self.M).run('h_default', st, [Ptr('d')]) if o.kind == 'ret']
        if len(outs) == 1:
            # where the chunk table comes from: the allocator given, or the vector's own
            tab = outs[0].st.mem['d'].cells.get(self.vp, (8, RAW))[1]
            tab = tab.obj if isinstance(tab, Ptr) else None
            self.tag = outs[0].st.mem[tab].tag if tab in outs[0].st.mem else 'new'
            for k, o in outs[0].st.mem.items():
                if o.kind == 'heap' and o.tag == 'AL' and k != tab:
                    s = L(o.size) if isinstance(o, Flat) else o.n * (o.stride or 1)
                    if s.is_const() and s.c % 8 == 0:
                        return s.c // 8
        raise ir.Broken('a new deque does not allocate a chunk of constant size')

    def sanity(self):
        """the representation is the one the invariant speaks about"""
        t = Checker('D', {'inv', 'ub', 'val', 'life'})
        st = State()
        st.mem['d'] = Flat('ext', self.size, {})
        ck, self.ck = self.ck, t
        for o in t.returns(t.run('default construction', self.mod, 'h_default', st, [Ptr('d')], self.M)):
            for o1, w in self.check(o, 'd', [], 'a new deque'):
                pass
        self.ck = ck
        bad = [f for f in t.findings if 'size()' not in f.what and 'empty()' not in f.what]
        if bad and self.known:
            return
        if bad:
            raise ir.Broken('the representation of deque is not the one the analysis knows')

    # ------------------------------------------------------------ given positions
    def given(self, st):
        """states in which every deque has a given number of chunks and given ends"""
        P = self.per
        syms = {x for t in st.cons.d for x, k in t}
        names = sorted({x[:-len('.front_chunk')] for x in syms if x.endswith('.front_chunk')})
        for k, (f, b, fc, nc) in enumerate(((P - 1, 1, 0, 2), (P - 2, 1, 1, 1), (P - 1, 0, 0, 1), (0, P - 2, 1, 2), (P // 2, 2, 0, 3), (1, 0, 0, 2), (P - 2, P // 2, 0, 1), (5, 9, 1, 0), (0, P - 1, 0, 1))):
            s = [st.copy()]
            for j, n in enumerate(names):
                for x, v in (('front', f), ('back', b), ('front_chunk', fc), ('back_chunk', fc + nc), ('chunks', fc + nc + 1 + (b == P - 1)), ('capacity', fc + nc + 3)):
                    x = '%s.%s' % (n, x)
                    if s and x in syms and x not in s[0].elim:
                        s = [u for u in assume(s[0], eq0(Lin.sym(x) - v), False) if u.cons.feasible() is not False]
            if names and s:
                yield s[0]

    # ------------------------------------------------------------ states
    def make(self, st, name, kind='ext', least=0):
        """any deque satisfying the representation invariant; returns its size"""
        P = self.per
        f, b, fc, bc, c, cap, n = (Lin.sym('%s.%s' % (name, x)) for x in ('front', 'back', 'front_chunk', 'back_chunk', 'chunks', 'capacity', 'size'))
        st.cons = st.cons.add(n - least).add(f).add(P - 1 - f).add(b).add(P - 1 - b).add(fc).add(bc - fc).add(c - 1 - bc).add(cap - c).add(BIG - cap)
        size = (bc - fc) * P + b - f + 1
        out = []
        if least == 0:
            # empty: the ends are next to each other inside one chunk
            s = st.copy()
            for s1 in assume(s, cand(eq0(size), cand(eq0(bc - fc), eq0(n))), False):
                out.append(s1)
        s = st.copy()
        s.cons = s.cons.add(size - 1)
        # a full last chunk is followed by another one, where end() points
        for cnd in (ge(P - 2 - b), cand(eq0(b - (P - 1)), ge(c - 2 - bc))):
            for s1 in assume(s, cnd, False):
                out += assume(s1, eq0(s1.L(n) - s1.L(size)), False)
        for s1 in out:
            self.put(s1, name, kind, *(s1.L(x) for x in (f, b, fc, bc, c, cap, n)))
        return out

    def put(self, st, name, kind, f, b, fc, bc, c, cap, n):
        P = self.per
        F, B = fc * P + f, bc * P + b + 1
        I0 = I - F
        segs = tuple(x for x in ((ZERO, F, RAW), (F, B, Term(name, (I0,), 'E')), (B, c * P, RAW)))
        st.mem[name + '.c'] = Arr('heap', 'chk', 8, c, {0: (8, segs)}, True, 'AL', per=P, bsize=L(P * 8))
        st.mem[name + '.v'] = Arr('heap', 'lin', 8, cap, {0: (8, ((ZERO, c, Ptr(name + '.c', ZERO, I)), (c, cap, RAW)))}, True, self.tag)
        st.mem[name] = Flat(kind, self.size, {self.of: (8, f), self.ob: (8, b), self.ofc: (8, fc), self.obc: (8, bc), self.on: (8, n),
                                              self.vn: (8, c), self.vcap: (8, cap), self.vp: (8, Ptr(name + '.v'))})

    def pos(self, st, name, i):
        """(element pointer, chunk pointer) of position i"""
        raise NotImplementedError

    # ------------------------------------------------------------ linear view
    def view(self, eng, st, name):
        """the cells of all chunks in the order of the chunk table, as one sequence"""
        P = self.per
        c = st.mem[name].cells
        g = lambda off: c.get(off, (8, RAW))[1]
        cnt, p = g(self.vn), g(self.vp)
        if not isinstance(cnt, Lin) or not isinstance(p, Ptr):
            raise Bad('the chunk table is left with indeterminate members')
        cap = g(self.vcap)
        tab = eng.obj(st, p, 'chunk table')
        if isinstance(tab, Flat):
            tab = eng.to_arr(st, p.obj, tab, 8)
        if tab.stride is None:
            tab = tab.copy(stride=8, n=tab.n.divides(8))
        if p.off != ZERO or decide(st, eq0(tab.n - cap)) is False:
            raise Bad('the chunk table does not have the capacity it claims')
        segs, fam, one = [], {}, []
        for lo, hi, v in eng.seg_slice(st, eng.col(tab, 0, 8), ZERO, cnt):
            if decide(st, ge(lo - hi)) is True:
                continue
            if not isinstance(v, Ptr) or v.obj is None:
                raise Bad('the chunk table holds %r' % (v,))
            ob = eng.obj(st, at(v, lo), 'chunk')
            if isinstance(ob, Arr) and ob.mode == 'chk':
                if v.off != ZERO or not (v.blk - I).is_const() and decide(st, eq0(hi - lo - 1)) is not True:
                    raise Lost('chunk table entry %r' % v)
                sh = at(v.blk, lo) - lo
                a, z = (lo + sh) * P, (hi + sh) * P
                if ob.alive is not True:
                    for x, y, w in eng.seg_slice(st, ob.alive, lo + sh, hi + sh):
                        if w == ZERO and decide(st, ge(x - y)) is not True:
                            raise Bad('the chunk table refers to a deallocated chunk')
                for x, y, w in eng.seg_slice(st, eng.col(ob, 0, 8), a, z):
                    segs.append((x - sh * P, y - sh * P, vsubst(w, {IDX: I + sh * P})))
                fam[v.obj] = fam.get(v.obj, ZERO) + (hi - lo)
            else:
                if decide(st, eq0(hi - lo - 1)) is not True:
                    raise Bad('the same chunk is used twice')
                if v.obj in one:
                    raise Bad('the same chunk is used twice')
                one.append(v.obj)
                n = L(ob.size) if isinstance(ob, Flat) else ob.n * (ob.stride or 1)
                if n != L(P * 8) or ob.tag != 'AL' or v.off != ZERO:
                    raise Bad('a chunk that was not obtained as a chunk')
                if isinstance(ob, Flat):
                    ob = eng.to_arr(st, v.obj, ob, 8)
                if ob.stride is None:
                    cs = ((ZERO, L(P), RAW),)
                else:
                    cs = eng.col(ob, 0, 8)
                for x, y, w in cs:
                    segs.append((x + lo * P, y + lo * P, vsubst(w, {IDX: I - lo * P})))
        return segs, fam, one, cnt, p.obj

    def fields(self, st, name):
        c = st.mem[name].cells
        return tuple(c.get(off, (8, RAW))[1] for off in (self.of, self.ob, self.ofc, self.obc, self.on))

    def check(self, o, name, runs, what):
        """representation invariant and contents; yields (outcome, owned)"""
        ck, P = self.ck, self.per
        eng = ck.eng
        for o1, r in ck.fork(o, lambda st: self.view(eng, st, name)):
            segs, fam, one, cnt, tab = r
            f, b, fc, bc, n = self.fields(o1.st, name)
            if not all(isinstance(x, Lin) for x in (f, b, fc, bc, n)):
                ck.fail(o1, '%s is left with indeterminate members' % what, 'ub')
                continue
            rr = [(o1.st.L(c), self.re(g, o1)) for c, g in runs]
            total = ZERO
            for c, g in rr:
                total = total + c
            for o2, v in ck.observe(o1, self.mod, 'h_size', [Ptr(name)], self.M):
                ck.eq(o2, v, o2.st.L(total), 'size() of ' + what)
            for o2, v in ck.observe(o1, self.mod, 'h_empty', [Ptr(name)], self.M):
                cc = v.cond if isinstance(v, BInt) else cnot(eq0(v))
                e = eq0(o2.st.L(total))
                ck.prove(o2, cor(cand(cc, e), cand(cnot(cc), cnot(e))), 'empty() of %s disagrees with its contents' % what)
            F, B = fc * P + f, bc * P + b + 1
            inv = lambda c, t: ck.prove(o1, c, '%s: %s' % (what, t), 'inv')
            inv(ge(cnt - 1), 'no chunk is left')
            inv(cand(cand(ge(f), ge(P - 1 - f)), cand(ge(b), ge(P - 1 - b))), 'an end lies outside its chunk')
            inv(cand(ge(fc), cand(ge(bc - fc), ge(cnt - 1 - bc))), 'an end lies in a chunk that does not exist')
            inv(cor(ge(P - 2 - b), ge(cnt - 2 - bc)), 'the chunk where end() points does not exist')
            inv(eq0(B - F - total), 'the ends are not as far apart as the deque has elements')
            ck.seq(o1, segs, F, rr, 'contents of ' + what)
            ck.seq(o1, segs, F + total, [(cnt * P - F - total, lambda i: RAW)], '%s: storage behind the last element' % what, 'life')
            ck.seq(o1, segs, ZERO, [(F, lambda i: RAW)], '%s: storage before the first element' % what, 'life')
            yield o1, (fam, one, tab)

    def re(self, f, o):
        if not o.st.elim:
            return f
        return lambda i: vsubst(f(i), o.st.elim)

    def no_leak(self, o, owned):
        ck = self.ck
        fam, one = {}, set()
        for f, s, t in owned:
            for k, c in f.items():
                fam[k] = fam.get(k, ZERO) + c
            one |= set(s) | {t}
        for k, ob in o.st.mem.items():
            if ob.kind != 'heap' or ob.tag == 'exc':
                continue
            if isinstance(ob, Arr) and ob.mode == 'chk':
                ck.eq(o, alive_count(ob), o.st.L(fam.get(k, ZERO)), 'chunks alive and chunks in use', 'life')
            elif ob.alive and k not in one:
                ck.fail(o, 'storage that no longer belongs to a deque is not released', 'life')


def run(ck):
    if 'inv' not in ck.tags:
        ck.tags.add('inv')
    M = models()
    mod = ir.compile_ir('deq.cpp')
    X = Deq(ck, mod, M)
    ck.mixed = X.given
    ev = lambda n: Term(n, (), 'E')
    n, m = Lin.sym('d.size'), Lin.sym('o.size')

    counting = copies_counted(M)

    def go(name, entry, st, args, M=M):
        outs = ck.returns(ck.run('deque: %s' % name, mod, entry, st, args, M))
        for o in outs:
            ck.no_stack_elements(o)
        return outs

    def part(o, name, lo, hi):
        lo, hi = o.st.L(lo), o.st.L(hi)
        return (hi - lo, lambda i: Term(name, (lo + i,), 'E'))

    def final(o, wants):
        todo = [(o, [])]
        for name, runs, what in wants:
            nxt = []
            for o1, ws in todo:
                rr = [(o1.st.L(c), X.re(g, o1)) for c, g in runs]
                for o2, w in X.check(o1, name, rr, what):
                    nxt.append((o2, ws + [w]))
            todo = nxt
        for o1, ws in todo:
            X.no_leak(o1, ws)

    def base(least=0):
        return X.make(State(), 'd', least=least)

    X.sanity()
    st = State()
    st.mem['d'] = Flat('ext', X.size, {})
    for o in go('default construction', 'h_default', st, [Ptr('d')]):
        final(o, [('d', [], 'a new deque')])
    st = State()
    st.mem['d'] = Flat('ext', X.size, {})
    st.mem['al'] = Flat('ro', 1, {})
    for o in go('construction with an allocator', 'h_alloc', st, [Ptr('d'), Ptr('al')]):
        final(o, [('d', [], 'a new deque')])
    for st in base():
        for o in go('destruction', 'h_dtor', st, [Ptr('d')]):
            X.no_leak(o, [])
    for st in base():
        for o in go('clear', 'h_clear', st, [Ptr('d')]):
            final(o, [('d', [], 'the cleared deque')])

    def insert(name, entry, states, args, back, moved, new=None, kind=None):
        for st in states:
            a = list(args)
            if kind is not None:
                st.mem['x'] = Flat(kind, 8, {0: (8, ev('x'))})
                a.append(Ptr('x'))
            for o in go(name, entry, st, a, counting if moved else M):
                if kind is not None:
                    w = o.st.mem['x'].cells.get(0, (8, RAW))[1]
                    if moved:
                        ck.prove(o, w is not RAW, 'the argument is destroyed', 'ub')
                        ck.prove(o, w is RAW or w is MOVED, 'an rvalue argument is copied, not moved from')
                        ck.prove(o, copies(o) == 0, 'an rvalue argument is moved and then copied')
                    else:
                        ck.eq(o, w, ev('x'), 'the argument')
                r = new(o) if new else (ONE, lambda i: ev('x'))
                old = part(o, 'd', ZERO, n)
                final(o, [('d', [old, r] if back else [r, old], 'the deque')])

    for fn, kind in (('', 'ro'), ('m', 'ext')):
        sfx = ' of an rvalue' if fn else ''
        insert('push_back' + sfx, 'h_push_back' + fn, base(), [Ptr('d')], True, fn, kind=kind)
        insert('push_front' + sfx, 'h_push_front' + fn, base(), [Ptr('d')], False, fn, kind=kind)
    i = Lin.sym('i')

    def at_i(least=1):
        out = []
        for st in base(least):
            st.cons = st.cons.add(i).add(st.L(n) - 1 - i)
            if st.cons.feasible() is not False:
                out.append(st)
        return out
    own = lambda o: (ONE, lambda _: Term('d', (o.st.L(i),), 'E'))
    insert('push_back of its own element', 'h_push_backself', at_i(), [Ptr('d'), i], True, False, new=own)
    insert('push_front of its own element', 'h_push_frontself', at_i(), [Ptr('d'), i], False, False, new=own)
    for fn, lo, hi in (('pop_back', ZERO, -1), ('pop_front', ONE, 0)):
        for st in base(1):
            for o in go(fn, 'h_' + fn, st, [Ptr('d')]):
                final(o, [('d', [part(o, 'd', lo, o.st.L(n) + hi)], 'the deque')])
        for st in base(0)[:1]:
            for o in go(fn + ' of an empty deque', 'h_' + fn, st, [Ptr('d')]):
                final(o, [('d', [], 'the deque')])

    # ---------------------------------------------------------- access
    def element(o, v, k, what):
        """v refers to element k"""
        f, b, fc, bc, _ = X.fields(o.st, 'd')
        v = resolve(o.st, v) if isinstance(v, Ptr) else v
        if not isinstance(v, Ptr) or v.obj != 'd.c' or v.blk is None:
            ck.fail(o, what)
            return
        ck.prove(o, cand(eq0(v.blk * (8 * X.per) + v.off - (fc * X.per + f + k) * 8), cand(ge(v.off), ge(L(8 * X.per - 8) - v.off))), what)

    def same(o):
        final(o, [('d', [part(o, 'd', ZERO, n)], 'the deque')])

    for c in ('', 'c'):
        kind = 'ro' if c else 'ext'
        sfx = ' of a const deque' if c else ''
        for fn in ('front', 'back'):
            for st in X.make(State(), 'd', kind, 1):
                for o in go(fn + sfx, 'h_' + c + fn, st, [Ptr('d')]):
                    element(o, o.val, ZERO if fn == 'front' else o.st.L(n) - 1, 'the result does not refer to the %s element' % ('first' if fn == 'front' else 'last'))
                    same(o)
        for st in at_i():
            st.mem['d'].kind = kind
            for o in go('operator[]' + sfx, 'h_' + c + 'index', st, [Ptr('d'), i]):
                element(o, o.val, o.st.L(i), 'the result does not refer to the element at the index')
                same(o)

    # ---------------------------------------------------------- iterators
    it = mod.type_prefix('iter') + mod.type_prefix('const_iter')
    if len({t['size'] for t in it}) != 1:
        raise ir.Broken('iterator types not found')
    isz = it[0]['size']

    def probe(fn, kind):
        for st in X.make(State(), 'd', kind, 1):
            st.mem['r'] = Flat('ext', isz, {})
            outs = [o for o in Engine(mod, M).run('h_' + fn, st, [Ptr('r'), Ptr('d')]) if o.kind == 'ret']
            for o in outs:
                c = o.st.mem['r'].cells
                e = [k for k, (w, v) in c.items() if isinstance(v, Ptr) and v.obj == 'd.c']
                t = [k for k, (w, v) in c.items() if isinstance(v, Ptr) and v.obj == 'd.v']
                if len(e) == 1 and len(t) == 1:
                    return e[0], t[0]
        raise ir.Broken('the members of an iterator are not an element and a chunk table pointer')
    lay = {'i': probe('begin', 'ext'), 'c': probe('ccbegin', 'ro')}

    def itcells(c, a, blk):
        e, t = lay[c]
        return {e: (8, Ptr('d.c', a, blk)), t: (8, Ptr('d.v', blk * 8))}

    def position(o, obj, c, k, what):
        """the iterator stored in obj designates position k (0..size)"""
        e, t = lay[c]
        cs = o.st.mem[obj].cells
        v, w = cs.get(e, (8, RAW))[1], cs.get(t, (8, RAW))[1]
        element(o, v, k, what)
        v = resolve(o.st, v) if isinstance(v, Ptr) else v
        if isinstance(v, Ptr) and v.blk is not None:
            if not isinstance(w, Ptr) or w.obj != 'd.v':
                ck.fail(o, what + ' (chunk)')
            else:
                ck.prove(o, eq0(w.off - v.blk * 8), what + ' (chunk)')

    def place(st, s, lo, hi, least=0):
        """position s = q*P+r-F within lo..hi: (position, chunk, offset)"""
        q, r = Lin.sym(s + '.chunk'), Lin.sym(s + '.offset')
        f, b, fc, bc, nn = X.fields(st, 'd')
        pos = q * X.per + r - (fc * X.per + f)
        c = st.mem['d'].cells[X.vn][1]
        st.cons = st.cons.add(r).add(X.per - 1 - r).add(q).add(c - 1 - q).add(st.L(pos) - lo).add(st.L(n) + hi - st.L(pos))
        return pos, q, r

    for fn in ('begin', 'ccbegin', 'cbegin', 'end', 'ccend', 'cend'):
        cst = fn[0] == 'c'
        for st in X.make(State(), 'd', 'ro' if cst else 'ext'):
            st.mem['r'] = Flat('ext', isz, {})
            for o in go(fn, 'h_' + fn, st, [Ptr('r'), Ptr('d')]):
                position(o, 'r', 'c' if cst else 'i', ZERO if 'begin' in fn else o.st.L(n), 'the iterator designates another position')
                same(o)
    for c in 'ic':
        for fn in ('deref', 'arrow'):
            for st in base(1):
                p, q, r = place(st, 'p', 0, -1)
                if st.cons.feasible() is False:
                    continue
                st.mem['it'] = Flat('ext', isz, itcells(c, r * 8, q))
                for o in go('iterator ' + fn, 'h_' + ('c' if c == 'c' else '') + fn, st, [Ptr('it')]):
                    element(o, o.val, o.st.L(p), 'the result does not refer to the element at the position')
        for op in ('inc', 'incr', 'incp', 'dec', 'decr', 'decp'):
            dec = op.startswith('dec')
            for st in base(1):
                p, q, r = place(st, 'p', 1 if dec else 0, 0 if dec else -1)
                if st.cons.feasible() is False:
                    continue
                st.mem['it'] = Flat('ext', isz, itcells(c, r * 8, q))
                st.mem['r'] = Flat('ext', isz, {})
                args = [Ptr('it')] if op.endswith('r') else [Ptr('r'), Ptr('it')]
                for o in go('%s iterator %s' % ('const' if c == 'c' else 'mutable', op), 'h_' + c + op, st, args):
                    d = -1 if dec else 1
                    position(o, 'it', c, o.st.L(p) + d, 'the iterator does not move by one position')
                    if op.endswith('r'):
                        ck.eq(o, o.val, Ptr('it'), 'the result of the pre-form')
                    else:
                        position(o, 'r', c, o.st.L(p) + (0 if op.endswith('p') else d), 'the result is another position')
                    same(o)
        for op in ('eq', 'ne', 'diff'):
            for st in base():
                p, q, r = place(st, 'p', 0, 0)
                p2, q2, r2 = place(st, 'q', 0, 0)
                if st.cons.feasible() is False:
                    continue
                st.mem['it'] = Flat('ro', isz, itcells(c, r * 8, q))
                st.mem['jt'] = Flat('ro', isz, itcells(c, r2 * 8, q2))
                for o in go('%s iterator %s' % ('const' if c == 'c' else 'mutable', op), 'h_' + c + op, st, [Ptr('it'), Ptr('jt')]):
                    if op == 'diff':
                        ck.eq(o, o.val, o.st.L(p - p2), 'the difference')
                        continue
                    v = o.val.cond if isinstance(o.val, BInt) else cnot(eq0(o.val))
                    e = cand(eq0(o.st.L(q - q2)), eq0(o.st.L(r - r2)))
                    if op == 'ne':
                        e = cnot(e)
                    ck.prove(o, cor(cand(v, e), cand(cnot(v), cnot(e))), 'the comparison is wrong')
    for st in base():
        p, q, r = place(st, 'p', 0, 0)
        if st.cons.feasible() is False:
            continue
        st.mem['it'] = Flat('ext', isz, itcells('i', r * 8, q))
        st.mem['r'] = Flat('ext', isz, {})
        for o in go('conversion to a const iterator', 'h_conv', st, [Ptr('r'), Ptr('it')]):
            position(o, 'r', 'c', o.st.L(p), 'the conversion changes the position')

    # ---------------------------------------------------------- whole deques, from the contracts of the members
    whole(ck, X, isz, lay, M)
    return ck


def contracts(mod, isz, lay):
    pre, cpre = '_ZN4cest5dequeI1E2ALIS1_EE', '_ZNK4cest5dequeI1E2ALIS1_EE'
    m = models()
    g = {'C1Ev': ghost.m_default, 'C2Ev': ghost.m_default, 'C1ERKS3_': ghost.m_default, 'C2ERKS3_': ghost.m_default, 'D1Ev': ghost.m_dtor, 'D2Ev': ghost.m_dtor, '5clearEv': ghost.m_clear,
         '9push_backERKS1_': ghost.push(True, False), '9push_backEOS1_': ghost.push(True, True),
         '10push_frontERKS1_': ghost.push(False, False), '10push_frontEOS1_': ghost.push(False, True),
         '8pop_backEv': ghost.pop(False), '9pop_frontEv': ghost.pop(True), 'ixEm': ghost.m_index,
         '5frontEv': ghost.end(True), '4backEv': ghost.end(False), '4sizeEv': ghost.m_size, '5emptyEv': ghost.m_empty}
    for k, f in g.items():
        m[pre + k] = f
        m[cpre + k] = f
    need = ('C2Ev', 'D2Ev', '5clearEv', '9push_backERKS1_', 'ixEm')
    if any(pre + k not in mod.funcs for k in need):
        raise ir.Broken('members of deque not found')

    def bound(c, first):
        e, t = lay[c]

        def f(eng, st, args, ins):
            lo, hi, s, o, n = ghost.fields(st, args[0], 'iteration')
            v = [TOP, TOP]
            v[e // 8] = Ptr(s, (lo if first else hi) * 8)
            return Agg(v)
        return f

    def step(c, d, post):
        e, t = lay[c]

        def f(eng, st, args, ins):
            p = args[0].plus(e)
            a = eng.load(st, p, 8, 'ptr')
            if not isinstance(a, Ptr) or a.obj not in st.mem or st.mem[a.obj].kind != 'ghost':
                raise Lost('an iterator of another origin')
            eng.store(st, p, 8, a.plus(8 * d))
            if post:
                v = [TOP, TOP]
                v[e // 8] = a
                return Agg(v)
            return args[0]
        return f
    if isz == 16:
        for n, first in (('5begin', True), ('3end', False)):
            m[pre + n + 'Ev'] = bound('i', first)
            m[cpre + n + 'Ev'] = bound('c', first)
            m[cpre + n[0].replace('5', '6').replace('3', '4') + 'c' + n[1:] + 'Ev'] = bound('c', first)
        for k, c in (('4iter', 'i'), ('10const_iter', 'c')):
            for op, d in (('pp', 1), ('mm', -1)):
                m[pre + k + op + 'Ev'] = step(c, d, False)
                m[pre + k + op + 'Ei'] = step(c, d, True)
    return m


def whole(ck, X, isz, lay, M):
    mod = ir.compile_ir('deq.cpp', inline=False)
    G = contracts(mod, isz, lay)
    O = lambda cnt: (cnt, lambda i: Term('o', (i,), 'E'))

    def go(name, entry, st, args):
        outs = ck.returns(ck.run('deque: %s' % name, mod, entry, st, args, G))
        for o in outs:
            ck.no_stack_elements(o)
            ghost.temporaries(ck, o)
            for k, ob in o.st.mem.items():
                if ob.kind == 'heap' and ob.tag != 'exc' and ob.alive is True:
                    ck.fail(o, 'storage is not released', 'life')
        return outs

    for fn in ('copy', 'move'):
        st = State()
        m = ghost.make(st, 'o', 'ro' if fn == 'copy' else 'ext')
        ghost.unmade(st, 'd')
        for o in go(fn + ' construction', 'h_' + fn, st, [Ptr('d'), Ptr('o')]):
            ghost.contents(ck, o, 'd', [O(m)], 'the new deque')
            if fn == 'copy':
                ghost.contents(ck, o, 'o', [O(m)], 'the source')
            else:
                list(ck.fork(o, lambda st: ghost.fields(st, Ptr('o'), 'use')))
    st = State()
    k = Lin.sym('count')
    st.cons = st.cons.add(k).add(BIG - k)
    st.mem['init'] = Arr('ro', 'lin', 8, k, {0: (8, ((ZERO, k, Term('o', (I,), 'E')),))}, True)
    st.mem['l'] = Flat('ro', 16, {0: (8, Ptr('init')), 8: (8, k)})
    ghost.unmade(st, 'd')
    for o in go('construction from an initializer list', 'h_init', st, [Ptr('d'), Ptr('l')]):
        ghost.contents(ck, o, 'd', [O(k)], 'the new deque')
    for fn in ('assign', 'massign', 'selfassign'):
        st = State()
        n = ghost.make(st, 'd')
        args = [Ptr('d')]
        if fn != 'selfassign':
            m = ghost.make(st, 'o', 'ro' if fn == 'assign' else 'ext')
            args.append(Ptr('o'))
        for o in go({'assign': 'assignment', 'massign': 'move assignment'}.get(fn, 'self-assignment'), 'h_' + fn, st, args):
            ck.eq(o, o.val, Ptr('d'), 'the result')
            if fn == 'selfassign':
                ghost.contents(ck, o, 'd', [(n, lambda i: Term('d', (i,), 'E'))], 'the deque')
                continue
            ghost.contents(ck, o, 'd', [O(m)], 'the assigned deque')
            if fn == 'assign':
                ghost.contents(ck, o, 'o', [O(m)], 'the source')
