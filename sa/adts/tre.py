"""set and map: T01-T04"""
from .chain import *
from . import ghost
from .shapes import Given
from .. import tree
from ..tree import Tree, Ctx, Order, Layout, TreeEngine, FULL, LT, EQ, GT
from ..tree import Walk as TWalk

LESS = ['_ZNK1CclERK1ES2_', '_ZNK1CclERK1ERK2K2', '_ZNK1CclERK2K2RK1E']


class Tre:
    def __init__(self, ck, name):
        self.ck, self.nm = ck, name
        self.mod = ir.compile_ir(name + '.cpp')
        self.map = name == 'map'
        self.M = models()
        for f in LESS:
            self.M[f] = lambda eng, st, args, ins: eng.less(st, args)
        t = self.mod.type_prefix(name + '<') or self.mod.type_prefix(name)
        nd = [x for x in self.mod.types if x['name'] == 'node']
        if not t or not nd:
            raise ir.Broken('%s or its node type not found' % name)
        t, nd = t[0], nd[0]
        self.size = t['size']
        h = {n: o for n, o, s, m in self.mod.members(t)}
        c = {n: (o, s) for n, o, s, m in self.mod.members(nd)}
        self.elems = ((0, 'k'), (8, 'm')) if self.map else ((0, 'k'),)
        if all(k in h for k in ('m_root', 'm_begin', 'm_size')) and all(k in c for k in 'xlrpc'):
            self.root, self.begin, self.sz = h['m_root'], h['m_begin'], h['m_size']
            x = c['x'][0]
            lay = dict(l=c['l'][0], r=c['r'][0], p=c['p'][0], c=c['c'][0], cw=c['c'][1] if c['c'][1] in (1, 2, 4, 8) else 4)
            self.lay = Layout(nd['size'], x, lay['l'], lay['r'], lay['p'], lay['c'], 0, 1, tuple((x + o, e) for o, e in self.elems), lay['cw'])
            self.colours()
        else:
            self.learn(nd['size'])

    # ------------------------------------------------------------ layout
    def concrete(self, first_less):
        """insert two elements into an empty object; -> (state, node 1, node 2)"""
        M = dict(self.M)

        def less(eng, st, args, ins):
            a, b = E_get(eng, st, args[1], 'comparing'), E_get(eng, st, args[2], 'comparing')
            if a.src == b.src:
                return BInt(False)
            return BInt((a.src == 'x') == first_less)
        for f in LESS:
            M[f] = less
        st = State()
        st.mem['s'] = Flat('ext', self.size, {})
        ret = []
        for k, (entry, v) in enumerate([('h_default', None), ('h_insert', 'x'), ('h_insert', 'y')]):
            args = [Ptr('s')]
            if v:
                st.mem[v] = Flat('ro', 16 if self.map else 8, {0: (8, Term(v, (), 'E')), **({8: (8, Term('m' + v, (), 'E'))} if self.map else {})})
                r = 'r%d' % k
                st.mem[r] = Flat('ext', 16, {})
                args = [Ptr(r), Ptr('s'), Ptr(v)]
            eng = Engine(self.mod, M)
            outs = [o for o in eng.run(entry, st, args) if o.kind == 'ret']
            if len(outs) != 1:
                raise ir.Broken('cannot determine the layout (%s)' % entry)
            st = outs[0].st
            ret.append(st)
        return ret

    def nodes(self, st):
        r = {}
        for k, o in st.mem.items():
            if o.kind == 'heap' and isinstance(o, Flat) and o.alive:
                for off, (s, v) in o.cells.items():
                    if isinstance(v, Term) and v.src in 'xy':
                        r[v.src] = (k, off)
        return r

    def colours(self):
        try:
            st = self.concrete(True)
            n = self.nodes(st[2])
            b = st[2].mem[n['x'][0]].cells[self.lay.c][1]
            r = st[2].mem[n['y'][0]].cells[self.lay.c][1]
            if isinstance(b, Lin) and isinstance(r, Lin) and b.is_const() and r.is_const() and b.c != r.c:
                self.lay.red, self.lay.black = r.c, b.c
        except (ir.Broken, KeyError):
            pass

    def learn(self, nsize):
        try:
            self.learn1(nsize)
        except (KeyError, IndexError, Lost, Bad):
            raise ir.Broken('cannot determine the layout of the tree')

    def learn1(self, nsize):
        def only(cells, pred):
            r = [(off, s) for off, (s, v) in cells.items() if pred(v)]
            if len(r) != 1:
                raise ir.Broken('cannot determine the layout of the tree')
            return r[0]
        to = lambda n: lambda v: isinstance(v, Ptr) and v.obj == n
        st = self.concrete(False)[2]        # y < x: root x, begin y
        n = self.nodes(st)
        (x, off), (y, _) = n['x'], n['y']
        self.root = only(st.mem['s'].cells, to(x))[0]
        self.begin = only(st.mem['s'].cells, to(y))[0]
        self.sz = only(st.mem['s'].cells, lambda v: v == L(2))[0]
        l = only(st.mem[x].cells, to(y))[0]
        p = only(st.mem[y].cells, to(x))[0]
        st = self.concrete(True)[2]
        n = self.nodes(st)
        r = only(st.mem[n['x'][0]].cells, to(n['y'][0]))[0]
        c, w = only({o: v for o, v in st.mem[n['y'][0]].cells.items() if o not in (l, r, p)}, lambda v: isinstance(v, Lin))
        red = st.mem[n['y'][0]].cells[c][1].c
        black = st.mem[n['x'][0]].cells[c][1].c
        self.lay = Layout(nsize, off, l, r, p, c, red, black, tuple((off + o, e) for o, e in self.elems), w)

    # ------------------------------------------------------------ states
    def make(self, st, name='s', tree='T', kind='ext', colours=True):
        n = Lin.sym(name + '.size')
        b = Lin.sym(tree + '.height')
        st.cons = st.cons.add(n - b).add(BIG - n).add(b).add(L(64) - b)
        st.mem[tree] = Tree(NULL, b, 'black' if colours else 'any', cnt=n)
        st.mem['#order'] = Order([('T', tree)])
        st.mem[name] = Flat(kind, self.size, {self.root: (8, Ptr(tree)), self.begin: (8, Ptr('#first')), self.sz: (8, n)})
        return n

    def value(self, st, name='v', kind='ro', k2=False):
        if k2:
            st.mem['k2'] = Flat('ro', 8, {0: (8, Lin.sym('k2.v'))})
            return Ptr('k2')
        cells = {0: (8, Term('v', (), 'E'))}
        if self.map:
            cells[8] = (8, Term('mv', (), 'E'))
        st.mem['v'] = Flat(kind, 16 if self.map else 8, cells)
        return Ptr('v')

    def out(self, st, size=16):
        st.mem['r'] = Flat('ext', size, {})
        return Ptr('r')

    def go(self, name, entry, st, args, mode, kind=None, limit=3, colours=True, approx=True, cells=False):
        ck = self.ck
        holder = {}

        def mk(mod, M):
            e = TreeEngine(mod, M, self.lay, mode, kind, limit, colours, approx)
            e.begin = ('s', self.begin)

            def report(o, c, m):
                o.st.approx('the contract is not a specification')
                ck.prove(o, c, m, 'ord')
            e.report = report
            holder['e'] = e
            return e
        ck.make_engine = mk
        try:
            outs = ck.returns(ck.run('%s: %s' % (self.nm, name), self.mod, entry, st, args, self.M))
        finally:
            del ck.make_engine
        e = holder.get('e')
        if e is None:
            self.dropped = 0
            return outs
        if mode == 'prove' and e.dropped:
            ck.und('%d paths dropped' % e.dropped, '')
        for o in outs:
            ck.no_stack_elements(o)
        self.dropped = e.dropped
        return outs

    # ------------------------------------------------------------ obligations
    def cell(self, s, name, off):
        o = s.mem[name]
        if not isinstance(o, Flat) or not o.alive:
            raise Bad('%s is not alive' % name)
        v = o.cells.get(off, (0, RAW))[1]
        if v is RAW:
            raise Bad('a member is indeterminate')
        return v

    def well(self, o, n0=None, inserted=None, before=(), pos=None):
        """obligations on the tree of 's' after an operation; before: objects alive before"""
        ck = self.ck

        def f(s):
            w = TWalk()
            bh, col = ck.eng.walk(s, self.cell(s, 's', self.root), NULL, w)
            if col == 'any':
                q = self.cell(s, 's', self.root).obj
                raise tree.Split(lambda x: ck.eng.unfold(x, q), q)
            return w, col
        for o1, (w, col) in ck.fork(o, f):
            for c, msg, tag in w.bad:
                ck.prove(o1, c, msg, tag)
            if ck.eng.colours:
                ck.prove(o1, col == 'black', 'the root is not black', 'rb')
            yield o1, w


def new_nodes(o, before):
    return [k for k, ob in o.st.mem.items() if ob.kind == 'heap' and ob.tag == 'AL' and ob.alive and k not in before and k.startswith('heap#')]


def hinted(ck, X, mode, limit):
    """a hint is any iterator of the set"""
    insertion(ck, X, mode, limit, NULL)
    insertion(ck, X, mode, limit, Ptr('#hint') if mode == 'prove' else Ptr('T'))


def insertion(ck, X, mode, limit, hint=None):
    st = State()
    n = X.make(st)
    X.value(st)
    args = [X.out(st), Ptr('s')]
    if hint is not None:
        args.append(hint)
        if hint.obj == 'T':
            # the root of a set that is not empty
            x = TreeEngine(X.mod, X.M, X.lay, mode, 'insert', limit)
            sts = [s for s in x.unfold(st, 'T') if isinstance(s.mem.get('T'), Flat)]
        else:
            sts = [st]
        args.append(Ptr('v'))
        for s in sts:
            inserted(ck, X, mode, limit, True, s, args, n)
        return
    args.append(Ptr('v'))
    inserted(ck, X, mode, limit, False, st, args, n)


def inserted(ck, X, mode, limit, hint, st, args, n):
    before = set(st.mem)
    name = 'insertion%s (%s)' % (' with a hint' if hint else '', 'inductive' if mode == 'prove' else '%d levels' % limit)
    outs = X.go(name, 'h_inserthint' if hint else 'h_insert', st, args, mode, 'insert', limit)
    for o in outs:
        for o1, w in X.well(o):
            s = o1.st
            od = s.mem['#order']
            new = new_nodes(o1, before)
            lay = X.lay
            done = ck.eng.contents(o1, w.items, od.items, new, '', lambda c, m, t: ck.prove(o1, c, m, t))
            ins = od.ins and od.ins != '#eq'
            eqn = [x for x, r in od.rel.items() if od.relation(x) == EQ and x != '#first']
            if done:
                ck.prove(o1, not eqn, 'an element is inserted although an equivalent one is present', 'ord')
            else:
                ck.prove(o1, bool(eqn) or od.ins == '#eq', 'the element is not inserted although there is no equivalent one', 'ord')
            if done and not ins and new:
                for off, e in lay.elems:
                    ck.eq(o1, s.mem[new[0]].cells.get(off, (8, RAW))[1], Term('v' if e == 'k' else 'mv', (), 'E'), 'the element added', 'ord')
            at = Ptr(new[0]) if new else Ptr('#new') if ins else Ptr(eqn[0]) if eqn else Ptr('#eq')
            ck.eq(o1, s.mem['r'].cells.get(0, (8, RAW))[1], at, 'the returned iterator', 'ord')
            if not hint:
                b = s.mem['r'].cells.get(8, (1, RAW))[1]
                b = b.cond if isinstance(b, BInt) else cnot(eq0(b)) if isinstance(b, Lin) else False
                ck.prove(o1, b if done else cnot(b), 'the returned flag is wrong', 'ord')
            try:
                ck.eq(o1, X.cell(s, 's', X.sz), s.L(n) + (1 if done else 0), 'the size', 'ord')
                seq = w.items
                want = NULL if not seq else Ptr(seq[0][1]) if seq[0][0] == 'N' else Ptr('#first')
                have = X.cell(s, 's', X.begin)
                ck.prove(o1, have == want, 'the first element is %r instead of %r' % (have, want), 'first')
            except Bad as e:
                ck.fail(o1, e.msg, 'ub')
            for off, e in X.elems:
                ck.eq(o1, s.mem['v'].cells.get(off, (8, RAW))[1], Term('v' if e == 'k' else 'mv', (), 'E'), 'the argument', 'life')


def lookup(ck, X, entry, k2, mode, limit):
    st = State()
    n = X.make(st, colours=False, kind='ro' if entry.startswith('h_c') else 'ext')
    X.value(st, k2=k2)
    key = Ptr('k2') if k2 else Ptr('v')
    args = [X.out(st), Ptr('s'), key]
    if not k2:
        st.mem['v'] = Flat('ro', 8, {0: (8, Term('v', (), 'E'))})
    nm = '%slookup%s (%s)' % ('const ' if entry.startswith('h_c') else '', ' by another type' if k2 else '', 'inductive' if mode == 'prove' else '%d levels' % limit)
    for o in X.go(nm, entry, st, args, mode, None, limit, colours=False):
        if mode == 'unroll':
            same(ck, X, o)
        r = o.st.mem['r'].cells.get(0, (8, RAW))[1]
        od = o.st.mem['#order']
        if r == NULL:
            for o1, v in ck.fork(o, lambda s: counted(ck, s)):
                od = o1.st.mem['#order']
                for t, x in od.items:
                    ck.prove(o1, EQ.isdisjoint(od.relation(x)), 'the element is not found although it is present', 'ord')
        elif isinstance(r, Ptr) and ('N', r.obj) in od.items and r.off == ZERO:
            ck.prove(o, od.relation(r.obj) == EQ, 'an element is found that is not equivalent to the key', 'ord')
        elif isinstance(r, Ptr) and r.obj is not None and (ck.eng.opaque(o.st, r)):
            for o1, v in ck.fork(o, lambda s: force_node(ck, s, r)):
                ck.prove(o1, False if v is not None else True, 'an element is found without comparing it', 'ord')
        else:
            ck.fail(o, 'lookup returns %r' % (r,), 'ord')


def counted(ck, s):
    # what the number of elements says about the tree
    for k, ob in s.mem.items():
        if isinstance(ob, Tree) and ob.cnt is not None:
            raise tree.Split(lambda x: ck.eng.unfold(x, k), k)


def force_node(ck, s, r):
    if r.obj in s.mem and isinstance(s.mem[r.obj], (Tree, Ctx)):
        raise tree.Split(lambda x: ck.eng.unfold(x, r.obj), r.obj)
    if r.obj == '#first':
        raise tree.Split(ck.eng.first_unfold, '#first')
    return r.obj if r.obj in s.mem else None


def same(ck, X, o, name='s', tree_too=True):
    """an operation that only looks changes nothing"""
    def f(s):
        w = TWalk()
        root = s.mem[name].cells[X.root][1]
        ck.eng.walk(s, root, NULL, w)
        return w
    if not tree_too:
        return
    for o1, w in ck.fork(o, f):
        ck.prove(o1, w.items == [x for x in o1.st.mem['#order'].items if x[0] != 'C'], 'an operation that only looks changes the tree', 'ord')
        for c, msg, tag in w.bad:
            ck.prove(o1, c, 'an operation that only looks changes the tree: ' + msg, tag)
        for k, ob in o1.st.mem.items():
            if ob.kind == 'heap' and k.startswith('heap#') and ob.alive:
                ck.fail(o1, 'an operation that only looks allocates', 'life')


def observers(ck, X):
    for entry in ('h_begin', 'h_ccbegin', 'h_cbegin', 'h_end', 'h_ccend', 'h_cend'):
        st = State()
        X.make(st, colours=False)
        for o in X.go(entry[2:], entry, st, [X.out(st), Ptr('s')], 'unroll', None, 2, colours=False):
            r = o.st.mem['r'].cells.get(0, (8, RAW))[1]
            if entry.endswith('end'):
                ck.prove(o, r == NULL, 'end() is %r' % (r,), 'it')
            else:
                it = o.st.mem['#order'].items
                want = NULL if not it else Ptr(it[0][1]) if it[0][0] == 'N' else Ptr('#first')
                ck.prove(o, r == want, 'begin() is %r instead of %r' % (r, want), 'it')
            same(ck, X, o)
    for entry in ('h_size', 'h_empty'):
        st = State()
        n = X.make(st, colours=False, kind='ro')
        for o in X.go(entry[2:], entry, st, [Ptr('s')], 'unroll', None, 2, colours=False):
            for o1, v in ck.fork(o, lambda s: None):
                if entry == 'h_size':
                    ck.eq(o1, o1.val, o1.st.L(n), 'size()', 'ord')
                else:
                    v = o1.val
                    c = v.cond if isinstance(v, BInt) else cnot(eq0(v))
                    e = eq0(o1.st.L(n))
                    ck.prove(o1, cor(cand(c, e), cand(cnot(c), cnot(e))), 'empty() is wrong', 'ord')
            same(ck, X, o)


def place(X, st, left=True, right=True):
    """a node N somewhere in a tree"""
    st.mem['C'] = Ctx('N')
    st.mem['Nl'] = Tree(Ptr('N'), L(0), 'any')
    st.mem['Nr'] = Tree(Ptr('N'), L(0), 'any')
    y = X.lay
    cells = {y.l: (8, Ptr('Nl')), y.r: (8, Ptr('Nr')), y.p: (8, Ptr('C')), y.c: (y.cw, TOP)}
    for off, pre in y.elems:
        cells[off] = (8, Term(pre + ':N', (), 'E'))
    st.mem['N'] = Flat('heap', y.size, cells, tag='AL')
    st.mem['#order'] = Order([('C', 'C<'), ('T', 'Nl'), ('N', 'N'), ('T', 'Nr'), ('C', 'C>')])


def successor(ck, s):
    """is the place the iterator i designates the element after N?"""
    p = settled(ck, s, 'i')
    it = s.mem['#order'].items
    i = it.index(('N', 'N'))
    if p == NULL:
        rest = it[i + 1:]
    elif isinstance(p, Ptr) and p.off == ZERO and ('N', p.obj) in it:
        j = it.index(('N', p.obj))
        if j <= i:
            return False, p
        rest = it[i + 1:j]
    else:
        return False, p
    if any(t == 'N' for t, n in rest):
        return False, p
    for t, n in rest:
        if t == 'T':
            raise tree.Split(lambda x: ck.eng.unfold(x, n), n)
        if n[:-1] in s.mem and isinstance(s.mem[n[:-1]], Ctx):
            raise tree.Split(lambda x: ck.eng.unfold(x, n[:-1]), n)
        raise Lost('the element lies in a part of the tree that is not described')
    return True, p


def iterators(ck, X):
    for kind in 'ic' if X.map else 'i':
        cn = {'i': 'iterator', 'c': 'const_iterator'}[kind]
        for fn, form in (('inc', '++'), ('incp', 'post ++'), ('incr', 'result of ++')):
            for mode, limit in (('prove', 1), ('unroll', 3)):
                st = State()
                place(X, st)
                st.mem['i'] = Flat('ext', 8, {0: (8, Ptr('N'))})
                args = [Ptr('i')] if fn == 'incr' else [X.out(st, 8), Ptr('i')]
                for o in X.go('%s %s (%s)' % (form, cn, 'inductive' if mode == 'prove' else '%d levels' % limit), 'h_%s%s' % (kind, fn), st, args, mode, None, limit, colours=False):
                    if fn == 'incr':
                        ck.eq(o, o.val, Ptr('i'), 'the result of ++', 'it')
                    elif fn == 'incp':
                        ck.eq(o, o.st.mem['r'].cells.get(0, (8, RAW))[1], Ptr('N'), 'the result of post-increment', 'it')
                    else:
                        ck.eq(o, o.st.mem['r'].cells.get(0, (8, RAW))[1], o.st.mem['i'].cells.get(0, (8, RAW))[1], 'the result of ++', 'it')
                    for o1, (ok, q) in ck.fork(o, lambda s: successor(ck, s)):
                        ck.prove(o1, ok, 'after increment the iterator designates %r, not the next element' % (q,), 'it')
        for fn in ('deref', 'arrow'):
            st = State()
            place(X, st)
            st.mem['i'] = Flat('ro', 8, {0: (8, Ptr('N'))})
            for o in X.go('%s of %s' % (fn, cn), 'h_%s%s' % (kind, fn), st, [Ptr('i')], 'unroll', None, 2, colours=False):
                ck.eq(o, o.val, Ptr('N', L(X.lay.x)), 'the element designated', 'it')
        for fn in ('eq', 'ne'):
            for case in ('same', 'different', 'end', 'ends'):
                st = State()
                place(X, st)
                a, b = {'same': (Ptr('N'), Ptr('N')), 'different': (Ptr('N'), Ptr('M')), 'end': (Ptr('N'), NULL), 'ends': (NULL, NULL)}[case]
                if case == 'different':
                    st.mem['Nl'] = Tree(Ptr('N'), L(0))
                    x = TreeEngine(X.mod, X.M, X.lay, 'unroll', None, 2, colours=False)
                    for s in x.unfold(st, 'Nr'):
                        if 'Nr' in s.mem and isinstance(s.mem['Nr'], Flat):
                            st = s
                    b = Ptr('Nr')
                for x, v in (('i', a), ('j', b)):
                    st.mem[x] = Flat('ro', 8, {0: (8, v)})
                for o in X.go('%s of %ss (%s)' % (fn, cn, case), 'h_%s%s' % (kind, fn), st, [Ptr('i'), Ptr('j')], 'unroll', None, 2, colours=False):
                    v = o.val
                    c = v.cond if isinstance(v, BInt) else cnot(eq0(v)) if isinstance(v, Lin) else False
                    e = (a == b) == (fn == 'eq')
                    ck.prove(o, c if e else cnot(c), 'comparison of iterators', 'it')
    if X.map:
        for v in (Ptr('N'), NULL):
            st = State()
            place(X, st)
            st.mem['i'] = Flat('ro', 8, {0: (8, v)})
            for o in X.go('conversion to const_iterator', 'h_conv', st, [X.out(st, 8), Ptr('i')], 'unroll', None, 2, colours=False):
                ck.eq(o, o.st.mem['r'].cells.get(0, (8, RAW))[1], v, 'the converted iterator', 'it')


def settled(ck, s, name):
    p = s.mem[name].cells.get(0, (8, RAW))[1]
    if isinstance(p, Ptr) and p.obj in s.mem and isinstance(s.mem[p.obj], (Tree, Ctx)):
        raise tree.Split(lambda x: ck.eng.unfold(x, p.obj), p.obj)
    return p


def destroyed(ck, X, o, before=()):
    """every node of the tree is released, nothing else is"""
    for k, ob in o.st.mem.items():
        if isinstance(ob, Tree) and not ob.locked:
            for o1, v in ck.fork(o, lambda s: alive_tree(ck, s, k)):
                ck.prove(o1, not v, 'a node is not released', 'life')
        elif isinstance(ob, Flat) and ob.kind == 'heap' and ob.tag == 'AL' and ob.alive:
            ck.fail(o, 'a node is not released', 'life')


def alive_tree(ck, s, k):
    if k in s.mem and isinstance(s.mem[k], Tree):
        if s.mem[k].alive is False:
            return False
        raise tree.Split(lambda x: ck.eng.unfold(x, k), k)
    return k in s.mem


def empty_header(ck, X, o):
    for off, want, what in ((X.root, NULL, 'root'), (X.begin, NULL, 'first element'), (X.sz, ZERO, 'size')):
        try:
            ck.eq(o, X.cell(o.st, 's', off), want, 'the %s of an empty container' % what, 'ord')
        except Bad as e:
            ck.fail(o, e.msg, 'ub')


def clearing(ck, X):
    for fn in ('clear', 'dtor'):
        for mode, limit in (('prove', 1), ('unroll', 4)):
            st = State()
            X.make(st, colours=False)
            for o in X.go('%s (%s)' % ({'clear': 'clear', 'dtor': 'destruction'}[fn], 'inductive' if mode == 'prove' else '%d levels' % limit), 'h_' + fn, st, [Ptr('s')], mode, 'destroy', limit, colours=False):
                destroyed(ck, X, o)
                if fn == 'clear':
                    empty_header(ck, X, o)
    st = State()
    st.mem['s'] = Flat('ext', X.size, {})
    for o in X.go('default construction', 'h_default', st, [Ptr('s')], 'unroll'):
        empty_header(ck, X, o)


class Whole:
    """copy, assignment and construction from another container, over the verified members"""

    def __init__(self, ck, X):
        self.ck, self.X = ck, X
        self.mod = ir.compile_ir(X.nm + '.cpp', inline=False)
        self.w = 16 if X.map else 8
        self.cols = (0, 8) if X.map else (0,)
        cls = [n for n in self.mod.funcs if n.startswith('_ZN4cest3%sI' % X.nm) and n.endswith('5clearEv')]
        if len(cls) != 1:
            raise ir.Broken('clear() of %s not found' % X.nm)
        self.pre = cls[0][:-len('5clearEv')]
        self.G = self.contracts()

    def make(self, st, name, kind='ext'):
        n = Lin.sym(name + '.size')
        st.cons = st.cons.add(n).add(BIG - n)
        s, W = name + '.seq', L(BIG * 4)
        B = L(ghost.MID)
        st.mem[s] = Arr('ghost', 'lin', self.w, W, {c: (8, ((ZERO, B, RAW), (B, n + B, Term(('k:' if c == 0 else 'm:') + name, (I - B,), 'E')), (n + B, W, RAW))) for c in self.cols}, True)
        st.mem[name] = Flat(kind, self.X.size, {})
        ghost.put(st, name, s, ghost.MID, n + ghost.MID)
        return n

    def fresh(self, st):
        s, W = fresh('seq'), L(BIG * 4)
        st.mem[s] = Arr('ghost', 'lin', self.w, W, {c: (8, ((ZERO, W, RAW),)) for c in self.cols}, True)
        return s

    def contracts(self):
        m = models()
        w, cols = self.w, self.cols

        def default(eng, st, args, ins):
            p = args[0]
            o = eng.obj(st, p, 'construction')
            if not isinstance(o, Flat) or p.off != ZERO:
                raise Lost('construction of a subobject')
            if ghost.SEQ in o.cells:
                raise Bad('construction of an object that is already alive')
            ghost.put(st, p.obj, self.fresh(st), ghost.MID, ghost.MID)
            return RAW

        def wipe(eng, st, args, dead):
            lo, hi, s, o, n = ghost.fields(st, args[0], 'clear')
            ghost.writable(o)
            a = st.mem[s]
            st.mem[s] = a.copy(cols={c: (8, eng.seg_put(st, a.cols[c][1], lo, hi, [(lo, hi, RAW)])) for c in cols})
            if dead:
                st.mem[n] = o.copy(cells={}, tag='dead')
            else:
                ghost.put(st, n, s, ghost.MID, ghost.MID)
            return RAW

        def place(eng, st, args):
            lo, hi, s, o, n = ghost.fields(st, args[0], 'insertion')
            ghost.writable(o)
            v = [E_get(eng, st, args[-1].plus(c), 'inserting') for c in cols]
            if any(x is MOVED for x in v):
                raise Bad('a moved-from value is inserted')
            k = v[0]
            if not isinstance(k, Term) or not k.src.startswith('k:') or len(k.args) != 1:
                raise Lost('insertion of %r' % (k,))
            j = Lin.sym(fresh('j'))
            for a, b, x in st.mem[s].cols[0][1]:
                cs = st.cons.add(j - a).add(b - 1 - j).add(j - lo).add(hi - 1 - j)
                if cs.bad or cs.feasible() is False:
                    continue
                x = at(x, j)
                if not isinstance(x, Term) or x.src != k.src:
                    raise Lost('insertion into a container with other elements')
                if not cs.entails(k.args[0] - x.args[0] - 1):
                    raise Lost('insertion of an element that is not greater than those present')
            for c, x in zip(cols, v):
                eng.store(st, Ptr(s, hi * w + c), 8, x)
            ghost.put(st, n, s, lo, hi + 1)
            return Ptr(s, hi * w)

        def bound(first):
            def f(eng, st, args, ins):
                lo, hi, s, o, n = ghost.fields(st, args[0], 'iteration')
                return Ptr(s, (lo if first else hi) * w)
            return f

        def at_it(eng, st, p):
            a = eng.load(st, p, 8, 'ptr')
            if not isinstance(a, Ptr) or a.obj not in st.mem or st.mem[a.obj].kind != 'ghost':
                raise Lost('an iterator of another origin')
            return a

        def step(post):
            def f(eng, st, args, ins):
                a = at_it(eng, st, args[0])
                eng.store(st, args[0], 8, a.plus(w))
                return a if post else args[0]
            return f
        m.update({f: self.X.M[f] for f in ()})
        cpre = self.pre.replace('_ZN', '_ZNK', 1)
        g = {'C2Ev': default, 'C1Ev': default, 'D2Ev': lambda e, s, a, i: wipe(e, s, a, True), 'D1Ev': lambda e, s, a, i: wipe(e, s, a, True),
             '5clearEv': lambda e, s, a, i: wipe(e, s, a, False), '5beginEv': bound(True), '6cbeginEv': bound(True), '3endEv': bound(False), '4cendEv': bound(False),
             '4sizeEv': lambda e, s, a, i: ghost.m_size(e, s, a, i), '5emptyEv': ghost.m_empty}
        for k, f in g.items():
            m[self.pre + k] = f
            m[cpre + k] = f
        for n in self.mod.funcs:
            if n.startswith(self.pre) and n[len(self.pre):].startswith('6insert'):
                if 'iter' in n[len(self.pre):]:
                    m[n] = lambda e, s, a, i: place(e, s, a)
                else:
                    m[n] = lambda e, s, a, i: Agg([place(e, s, a), ONE])
        for it in ('9tree_iter', '15const_tree_iter'):
            for p in (self.pre, cpre):
                m[p + it + 'ppEv'] = step(False)
                m[p + it + 'ppEi'] = step(True)
                m[p + it + 'deEv'] = lambda e, s, a, i: at_it(e, s, a[0])
                m[p + it + 'ptEv'] = lambda e, s, a, i: at_it(e, s, a[0])
        return m

    def contents(self, o, name, src, cnt, what):
        ck = self.ck
        for o1, r in ck.fork(o, lambda st: ghost.fields(st, Ptr(name), what)):
            lo, hi, s, ob, n = r
            cnt1 = o1.st.L(cnt)
            ck.eq(o1, hi - lo, cnt1, 'the size of ' + what, 'ord')
            for c in self.cols:
                ck.seq(o1, o1.st.mem[s].cols[c][1], lo, [(cnt1, (lambda pre: lambda i: Term(pre + src, (i,), 'E'))('k:' if c == 0 else 'm:'))], 'contents of ' + what, 'ord')

    def run(self):
        ck, X = self.ck, self.X

        def go(name, entry, st, args):
            outs = ck.returns(ck.run('%s: %s' % (X.nm, name), self.mod, entry, st, args, self.G))
            for o in outs:
                ck.no_stack_elements(o)
                ghost.temporaries(ck, o)
                for k, ob in o.st.mem.items():
                    if ob.kind == 'heap' and ob.tag != 'exc' and ob.alive is True:
                        ck.fail(o, 'storage is not released', 'life')
            return outs
        for fn in ('copy', 'move'):
            st = State()
            m = self.make(st, 'o', 'ro' if fn == 'copy' else 'ext')
            st.mem['s'] = Flat('ext', X.size, {})
            for o in go(fn + ' construction', 'h_' + fn, st, [Ptr('s'), Ptr('o')]):
                self.contents(o, 's', 'o', m, 'the new container')
                if fn == 'copy':
                    self.contents(o, 'o', 'o', m, 'the source')
        for fn in ('assign', 'massign', 'selfassign'):
            st = State()
            n = self.make(st, 's')
            args = [Ptr('s')]
            if fn != 'selfassign':
                m = self.make(st, 'o', 'ro' if fn == 'assign' else 'ext')
                args.append(Ptr('o'))
            for o in go({'assign': 'assignment', 'massign': 'move assignment'}.get(fn, 'self-assignment'), 'h_' + fn, st, args):
                ck.eq(o, o.val, Ptr('s'), 'the result', 'ord')
                if fn == 'selfassign':
                    self.contents(o, 's', 's', n, 'the container')
                    continue
                self.contents(o, 's', 'o', m, 'the assigned container')
                if fn == 'assign':
                    self.contents(o, 'o', 'o', m, 'the source')


def run(ck):
    for name in ('set', 'map'):
        X = Tre(ck, name)
        ck.BUDGET = 130 if not X.map else 270
        for mode, limit in (('prove', 1), ('unroll', 3)):
            insertion(ck, X, mode, 5 if limit == 3 else limit)
            if not X.map:
                hinted(ck, X, mode, limit)
            for k2 in (False, True):
                for c in ('h_find', 'h_cfind'):
                    lookup(ck, X, c + ('2' if k2 else ''), k2, mode, limit)
        observers(ck, X)
        iterators(ck, X)
        clearing(ck, X)
        Whole(ck, X).run()
        ck.BUDGET = 200 if not X.map else 360
        Given(ck, X).run()
