"""list and forward_list: L01, F01"""
from .chain import *


class Lst:
    def __init__(self, ck, mod, name, M, double):
        self.ck, self.mod, self.M, self.double = ck, mod, M, double
        t = [x for x in mod.type_prefix(name)]
        nd = [x for x in mod.types if x['name'] == 'node']
        if not t or not nd:
            raise ir.Broken('%s or its node type not found' % name)
        self.size, self.nsize = t[0]['size'], nd[0]['size']
        names = {n: o for n, o, s, m in mod.members(nd[0])}
        self.learned = None
        if 'next' in names and 'value' in names and (not double or 'prev' in names):
            self.next, self.val, self.prev = names['next'], names['value'], names.get('prev')
            h = {n: o for n, o, s, m in mod.members(t[0])}
            self.hdr = h.get('m_node' if double else 'm_front')
            self.osz = h.get('m_size')
            if self.hdr is not None and (not double or self.osz is not None):
                return
        self.learn()

    def learn(self):
        """the roles of the members, from what the operations do to an empty object"""
        def only(entry, st, args):
            outs = [o for o in Engine(self.mod, self.M).run(entry, st, args) if o.kind == 'ret']
            if len(outs) != 1:
                raise ir.Broken('cannot determine the layout (%s)' % entry)
            return outs[0].st
        st = State()
        st.mem['l'] = Flat('ext', self.size, {})
        st = only('h_default', st, [Ptr('l')])
        for x in 'xy':
            st.mem[x] = Flat('ro', 8, {0: (8, Term(x, (), 'E'))})
            st = only('h_push_back' if self.double else 'h_push_front', st, [Ptr('l'), Ptr(x)])
        nodes = {}
        for k, o in st.mem.items():
            if k.startswith('heap#') and isinstance(o, Flat):
                for off, (s, v) in o.cells.items():
                    if isinstance(v, Term) and v.src in 'xy':
                        nodes[v.src] = (k, off)
        if len(nodes) != 2 or nodes['x'][1] != nodes['y'][1]:
            raise ir.Broken('cannot determine the layout of a node')
        self.val = nodes['x'][1]
        first, last = ('x', 'y') if self.double else ('y', 'x')
        f, l = nodes[first][0], nodes[last][0]

        def find(cells, pred):
            r = [off for off, (s, v) in cells.items() if pred(v)]
            if len(r) != 1:
                raise ir.Broken('cannot determine the layout of a node')
            return r[0]
        to = lambda n: lambda v: isinstance(v, Ptr) and v.obj == n
        self.next = find(st.mem[f].cells, to(l))
        hn = find(st.mem['l'].cells, to(f))
        self.hdr = hn - self.next
        self.prev = self.osz = None
        if self.double:
            self.prev = find(st.mem[l].cells, to(f))
            self.osz = find(st.mem['l'].cells, lambda v: v == L(2))

    def end(self, name):
        return Ptr(name, L(self.hdr)) if self.double else NULL

    def make(self, st, name, kind='ext', least=0):
        n = Lin.sym(name + '.size')
        st.cons = st.cons.add(n - least).add(BIG - n)
        f = name + '.n'
        cols = {self.next: (8, ((ZERO, n, Ptr(f, ZERO, I + 1)),)), self.val: (8, ((ZERO, n, Term(name, (I,), 'E')),))}
        h = Ptr(name, L(self.hdr))
        cells = {self.hdr + self.next: (8, Ptr(f, ZERO, ZERO))}
        if self.double:
            cols[self.prev] = (8, ((ZERO, n, Ptr(f, ZERO, I - 1)),))
            cells[self.hdr + self.prev] = (8, Ptr(f, ZERO, n - 1))
            cells[self.osz] = (8, n)
        st.mem[f] = Arr('heap', 'fam', self.nsize, n, cols, True, 'AL', bsize=L(self.nsize), ends=((n, self.end(name)), (L(-1), h)))
        st.mem[name] = Flat(kind, self.size, cells)
        return n

    def raw(self, st, name):
        st.mem[name] = Flat('ext', self.size, {})

    def part(self, o, name, lo, hi, keep=True):
        """elements lo..hi of the list `name` as it was"""
        lo, hi = o.st.L(lo), o.st.L(hi)
        return (hi - lo, lambda i: Term(name, (lo + i,), 'E'), (lambda i: Ptr(name + '.n', ZERO, lo + i)) if keep else None)

    def check(self, o, name, runs, what):
        """forward and backward traversal, size; -> (families, nodes) owned (all states)"""
        ck = self.ck
        seq = Seq(runs)
        res = []
        eng = ck.eng
        h = Ptr(name, L(self.hdr))
        first = lambda st: eng.load(st, h.plus(self.next), 8, 'ptr')
        for o1, w in ck.fork(o, lambda st: walk(eng, st, first(st), self.next, self.end(name), self.val)):
            s1 = Seq([(o1.st.L(c), self.re(f, o1), self.re(g, o1)) for c, f, g in runs])
            ck.eq(o1, w.n, s1.total(), 'number of elements of ' + what)
            ck.seq(o1, w.vals, ZERO, s1.vals(), 'contents of ' + what)
            ck.seq(o1, w.addr, ZERO, s1.addr(), 'nodes of ' + what)
            if self.double:
                last = lambda st: eng.load(st, h.plus(self.prev), 8, 'ptr')
                for o2, w2 in ck.fork(o1, lambda st: walk(eng, st, last(st), self.prev, h, self.val)):
                    s2 = Seq([(o2.st.L(c), self.re(f, o2), self.re(g, o2)) for c, f, g in s1.runs]).rev()
                    ck.eq(o2, w2.n, s2.total(), 'number of elements of %s counted backwards' % what)
                    ck.seq(o2, w2.vals, ZERO, s2.vals(), 'contents of %s backwards' % what)
                    ck.seq(o2, w2.addr, ZERO, [(c, (lambda f: lambda i: None)(f)) for c, f in s2.addr()], 'nodes of %s backwards' % what)
                    res.append((o2, w))
            else:
                res.append((o1, w))
        if self.double:
            for o1, v in ck.observe(o, self.mod, 'h_size', [Ptr(name)], self.M):
                ck.eq(o1, v, o1.st.L(seq.total()), 'size() of ' + what)
        for o1, v in ck.observe(o, self.mod, 'h_empty', [Ptr(name)], self.M):
            c = v.cond if isinstance(v, BInt) else cnot(eq0(v))
            e = eq0(o1.st.L(seq.total()))
            ck.prove(o1, cor(cand(c, e), cand(cnot(c), cnot(e))), 'empty() of %s disagrees with its contents' % what)
        return res

    def re(self, f, o):
        if f is None or not o.st.elim:
            return f
        return lambda i: vsubst(f(i), o.st.elim)

    def no_leak(self, o, walks):
        """every node alive is in one of the walks"""
        ck = self.ck
        for w in walks:
            for k in list(w.one) + list(w.fam):
                ob = o.st.mem[k]
                sz = (ob.bsize or L(ob.stride)) if isinstance(ob, Arr) else ob.size
                ck.prove(o, ob.tag == 'AL' and L(sz) == L(self.nsize), 'a node was not obtained from the allocator as one node', 'ub')
        fam, one = {}, set()
        for w in walks:
            for k, c in w.fam.items():
                fam[k] = fam.get(k, ZERO) + c
            one |= set(w.one)
        for k, ob in o.st.mem.items():
            if ob.kind != 'heap' or ob.tag == 'exc':
                continue
            if isinstance(ob, Arr) and ob.mode == 'fam':
                ck.eq(o, alive_count(ob), o.st.L(fam.get(k, ZERO)), 'nodes alive and nodes linked', 'life')
            elif ob.alive and k not in one:
                ck.fail(o, 'a node that belongs to no list is not released', 'life')


def runL(ck, double):
    M = models()
    mod = ir.compile_ir('lst.cpp' if double else 'fls.cpp')
    nm = 'list' if double else 'forward_list'
    X = Lst(ck, mod, nm, M, double)
    ev = lambda n: Term(n, (), 'E')
    one = lambda n: (ONE, lambda i: ev(n), None)

    counting = copies_counted(M)

    def go(name, entry, st, args, M=M):
        outs = ck.returns(ck.run('%s: %s' % (nm, name), mod, entry, st, args, M))
        for o in outs:
            ck.no_stack_elements(o)
        return outs

    def final(o, wants):
        """wants: [(list, runs, description)]; checks contents of each and that nothing else is alive"""
        todo = [(o, [])]
        for name, runs, what in wants:
            nxt = []
            for o1, ws in todo:
                rr = [(o1.st.L(c), X.re(f, o1), X.re(g, o1)) for c, f, g in runs]
                for o2, w in X.check(o1, name, rr, what):
                    nxt.append((o2, ws + [w]))
            todo = nxt
        for o1, ws in todo:
            X.no_leak(o1, ws)

    def arg(st, kind='ro'):
        st.mem['x'] = Flat(kind, 8, {0: (8, ev('x'))})
        return Ptr('x')

    def arg_ok(o, moved):
        w = o.st.mem['x'].cells.get(0, (8, RAW))[1]
        if moved:
            ck.prove(o, w is not RAW, 'the argument is destroyed', 'ub')
            ck.prove(o, w is RAW or w is MOVED, 'an rvalue argument is copied, not moved from')
            ck.prove(o, copies(o) == 0, 'an rvalue argument is moved and then copied')
        else:
            ck.eq(o, w, ev('x'), 'the argument')

    n = Lin.sym('l.size')
    m = Lin.sym('o.size')
    # ---------------------------------------------------------- whole lists
    st = State()
    X.raw(st, 'l')
    for o in go('default construction', 'h_default', st, [Ptr('l')]):
        final(o, [('l', [], 'a new list')])
    for fn in ('copy', 'move'):
        st = State()
        X.make(st, 'o', 'ro' if fn == 'copy' else 'ext')
        X.raw(st, 'l')
        for o in go(fn + ' construction', 'h_' + fn, st, [Ptr('l'), Ptr('o')]):
            w = [('l', [X.part(o, 'o', ZERO, m, False)], 'the new list')]
            if fn == 'copy':
                w.append(('o', [X.part(o, 'o', ZERO, m)], 'the source'))
                final(o, w)
            else:
                X.check(o, 'l', w[0][1], 'the new list')
    st = State()
    X.make(st, 'l')
    for o in go('destruction', 'h_dtor', st.copy(), [Ptr('l')]):
        X.no_leak(o, [])
    for o in go('clear', 'h_clear', st.copy(), [Ptr('l')]):
        final(o, [('l', [], 'the cleared list')])
    for o in go('self-assignment', 'h_selfassign', st.copy(), [Ptr('l')]):
        final(o, [('l', [X.part(o, 'l', ZERO, n, False)], 'the list')])
        ck.eq(o, o.val, Ptr('l'), 'the result')
    for fn in ('assign', 'massign'):
        st = State()
        X.make(st, 'l')
        X.make(st, 'o', 'ro' if fn == 'assign' else 'ext')
        for o in go('assignment' if fn == 'assign' else 'move assignment', 'h_' + fn, st, [Ptr('l'), Ptr('o')]):
            ck.eq(o, o.val, Ptr('l'), 'the result')
            w = [('l', [X.part(o, 'o', ZERO, m, False)], 'the assigned list')]
            if fn == 'assign':
                final(o, w + [('o', [X.part(o, 'o', ZERO, m)], 'the source')])
            else:
                X.check(o, 'l', w[0][1], 'the assigned list')
    if 'h_swap' in mod.funcs:
        st = State()
        X.make(st, 'l')
        X.make(st, 'o')
        for o in go('swap', 'h_swap', st, [Ptr('l'), Ptr('o')]):
            final(o, [('l', [X.part(o, 'o', ZERO, m)], 'the list'), ('o', [X.part(o, 'l', ZERO, n)], 'the other list')])
    # ---------------------------------------------------------- insertion
    def base(least=0):
        st = State()
        X.make(st, 'l', least=least)
        return st

    def insert(name, entry, st, args, pos, moved, ret=None, new=None, kind=None):
        a = list(args)
        if kind is not None:
            a.append(arg(st, kind))
        for o in go(name, entry, st, a, counting if moved else M):
            p = o.st.L(pos)
            run = new(o) if new else one('x')
            if kind is not None:
                arg_ok(o, moved)
            final(o, [('l', [X.part(o, 'l', ZERO, p), run, X.part(o, 'l', p, o.st.L(n))], 'the list')])
            if ret:
                ret(o, p)

    def node_ret(o, p):
        """the result designates the new node"""
        v = o.val
        eng = ck.eng
        for o1, q in ck.fork(o, lambda st: resolve(st, v) if isinstance(v, Ptr) else v):
            ob = o1.st.mem.get(q.obj) if isinstance(q, Ptr) and q.obj else None
            ck.prove(o1, ob is not None and ob.kind == 'heap' and isinstance(ob, Flat) and ob.alive is True and q.off == ZERO, 'the result does not designate the new element')

    def ref_ret(o, p):
        v = o.val
        ob = o.st.mem.get(v.obj) if isinstance(v, Ptr) and v.obj else None
        ck.prove(o, isinstance(ob, Flat) and ob.kind == 'heap' and ob.alive is True and v.off == L(X.val), 'the result does not refer to the new element')

    for fn, kind in (('', 'ro'), ('m', 'ext')):
        sfx = ' of an rvalue' if fn else ''
        insert('push_front' + sfx, 'h_push_front' + fn, base(), [Ptr('l')], ZERO, fn, kind=kind)
        if double:
            insert('push_back' + sfx, 'h_push_back' + fn, base(), [Ptr('l')], n, fn, kind=kind)
            insert('emplace_back' + sfx, 'h_emplace_back' + fn, base(), [Ptr('l')], n, fn, ref_ret, kind=kind)
            insert('emplace_front' + sfx, 'h_emplace_front' + fn, base(), [Ptr('l')], ZERO, fn, ref_ret, kind=kind)
        p = Lin.sym('pos')
        for op in ('insert', 'emplace'):
            if 'h_%s%s' % (op, fn) not in mod.funcs:
                continue
            st = base()
            if double:
                st.cons = st.cons.add(p).add(n - p)
                insert(op + sfx, 'h_%s%s' % (op, fn), st, [Ptr('l'), Ptr('l.n', ZERO, p)], p, fn, node_ret, kind=kind)
            else:
                st.cons = st.cons.add(p + 1).add(n - 1 - p)
                insert('insert_after' + sfx, 'h_insert' + fn, st, [Ptr('l'), Ptr('l.n', ZERO, p)], p + 1, fn, node_ret, kind=kind)
    p, q = Lin.sym('pos'), Lin.sym('from')
    lv = lambda i: (lambda o: (ONE, lambda _: Term('l', (o.st.L(i),), 'E'), None))
    if double:
        st = base()
        st.cons = st.cons.add(p).add(n - p)
        insert('emplace of a default element', 'h_emplace0', st, [Ptr('l'), Ptr('l.n', ZERO, p)], p, False, node_ret, new=lambda o: (ONE, lambda i: ev('E.default'), None))
        insert('push_back of its own front', 'h_push_backself', base(1), [Ptr('l')], n, False, new=lv(ZERO))
        insert('push_front of its own back', 'h_push_frontself', base(1), [Ptr('l')], ZERO, False, new=lv(n - 1))
        st = base(1)
        st.cons = st.cons.add(p).add(n - p).add(q).add(n - 1 - q)
        insert('insert of its own element', 'h_insertself', st, [Ptr('l'), Ptr('l.n', ZERO, p), Ptr('l.n', ZERO, q)], p, False, node_ret, new=lv(q))
    else:
        insert('push_front of its own front', 'h_push_frontself', base(1), [Ptr('l')], ZERO, False, new=lv(ZERO))
        st = base(1)
        st.cons = st.cons.add(p + 1).add(n - 1 - p).add(q).add(n - 1 - q)
        insert('insert_after of its own element', 'h_insertself', st, [Ptr('l'), Ptr('l.n', ZERO, p), Ptr('l.n', ZERO, q)], p + 1, False, node_ret, new=lv(q))

    # ---------------------------------------------------------- removal
    def remove(name, entry, st, args, lo, hi, ret=False):
        for o in go(name, entry, st, args):
            a, b = o.st.L(lo), o.st.L(hi)
            final(o, [('l', [X.part(o, 'l', ZERO, a), X.part(o, 'l', b, o.st.L(n))], 'the list')])
            if ret:
                if isinstance(o.val, Ptr):
                    ck.prove(o, peq(o.st, o.val, Ptr('l.n', ZERO, b)), 'the result does not designate the element after the removed ones')
                else:
                    ck.fail(o, 'the result is not an iterator')
    remove('pop_front', 'h_pop_front', base(1), [Ptr('l')], ZERO, ONE)
    st = base(1)
    if double:
        remove('pop_back', 'h_pop_back', base(1), [Ptr('l')], n - 1, n)
        st.cons = st.cons.add(p).add(n - 1 - p)
        remove('erase', 'h_erase', st, [Ptr('l'), Ptr('l.n', ZERO, p)], p, p + 1, True)
    else:
        st.cons = st.cons.add(p + 1).add(n - 2 - p)
        remove('erase_after', 'h_erase', st, [Ptr('l'), Ptr('l.n', ZERO, p)], p + 1, p + 2, True)
        st = base()
        st.cons = st.cons.add(p + 1).add(q - p - 1).add(n - q)
        remove('erase_after of a range', 'h_erase2', st, [Ptr('l'), Ptr('l.n', ZERO, p), Ptr('l.n', ZERO, q)], p + 1, q, True)
    # ---------------------------------------------------------- access
    def same(o):
        final(o, [('l', [X.part(o, 'l', ZERO, n)], 'the list')])

    for fn in ('front', 'cfront') + (('back', 'cback') if double else ()):
        st = base(1)
        st.mem['l'].kind = 'ro' if fn[0] == 'c' else 'ext'
        for o in go(fn.lstrip('c') + (' of a const list' if fn[0] == 'c' else ''), 'h_' + fn, st, [Ptr('l')]):
            i = ZERO if 'front' in fn else o.st.L(n) - 1
            ck.prove(o, isinstance(o.val, Ptr) and peq(o.st, o.val, Ptr('l.n', L(X.val), i)), 'the result does not refer to the %s element' % ('first' if 'front' in fn else 'last'))
            same(o)
    for fn in ('begin', 'cbegin', 'ccbegin', 'end', 'cend', 'ccend') + (() if double else ('before_begin',)):
        st = base()
        for o in go(fn, 'h_' + fn, st, [Ptr('l')]):
            i = L(-1) if 'before' in fn else (ZERO if 'begin' in fn else o.st.L(n))
            ck.prove(o, isinstance(o.val, Ptr) and peq(o.st, o.val, Ptr('l.n', ZERO, i)), 'the iterator designates another position')
            same(o)
    # ---------------------------------------------------------- iterators
    st = base(1)
    st.cons = st.cons.add(p).add(n - 1 - p)
    for fn in ('deref', 'arrow', 'cderef', 'carrow'):
        for o in go('iterator ' + fn, 'h_' + fn, st.copy(), [Ptr('l.n', ZERO, p)]):
            ck.prove(o, isinstance(o.val, Ptr) and peq(o.st, o.val, Ptr('l.n', L(X.val), o.st.L(p))), 'the result does not refer to the element at the position')
    for c in 'ic':
        for op in ('inc', 'incr', 'incp') + (('dec', 'decr', 'decp') if double else ()):
            dec = op.startswith('dec')
            lo = L(-1) if not double and op[0] == 'i' else (ONE if dec else ZERO)
            hi = n if dec else n - 1
            s1 = base()
            s1.cons = s1.cons.add(p - lo).add(hi - p)
            s1.mem['it'] = Flat('ext', 8, {0: (8, Ptr('l.n', ZERO, p))})
            for o in go('%s iterator %s' % ('const' if c == 'c' else 'mutable', op), 'h_%s%s' % (c, op), s1, [Ptr('it')]):
                P = lambda d: Ptr('l.n', ZERO, o.st.L(p) + d)
                d = -1 if dec else 1
                v = o.st.mem['it'].cells.get(0, (8, RAW))[1]
                ck.prove(o, isinstance(v, Ptr) and peq(o.st, v, P(d)), 'the iterator does not move by one position')
                if op.endswith('r'):
                    ck.eq(o, o.val, Ptr('it'), 'the result of the pre-form')
                else:
                    ck.prove(o, isinstance(o.val, Ptr) and peq(o.st, o.val, P(0 if op.endswith('p') else d)), 'the result is another position')
                same(o)
        for op in ('eq', 'ne'):
            s1 = base()
            s1.cons = s1.cons.add(p).add(n - p).add(q).add(n - q)
            for o in go('iterator comparison ' + op, 'h_%s%s' % (c, op), s1, [Ptr('l.n', ZERO, p), Ptr('l.n', ZERO, q)]):
                v = o.val.cond if isinstance(o.val, BInt) else cnot(eq0(o.val))
                e = eq0(o.st.L(p - q))
                if op == 'ne':
                    e = cnot(e)
                ck.prove(o, cor(cand(v, e), cand(cnot(v), cnot(e))), 'the comparison is wrong')
    s1 = base()
    s1.cons = s1.cons.add(p).add(n - p)
    for o in go('conversion to a const iterator', 'h_conv', s1, [Ptr('l.n', ZERO, p)]):
        ck.prove(o, isinstance(o.val, Ptr) and peq(o.st, o.val, Ptr('l.n', ZERO, o.st.L(p))), 'the conversion changes the position')
    return ck


def run(ck):
    return runL(ck, ck.pid == 'L01')
