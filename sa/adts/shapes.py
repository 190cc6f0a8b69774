"""set and map over given shapes: every red-black tree of up to a few nodes and some
large ones, with elements of which only the order is known.  Complements the shape
domain of tree.py for bodies it cannot describe."""
from .chain import *
from ..absint import Engine


def trees(n, bh, red_ok):
    """all red-black trees of n nodes and black height bh, as (colour, left, right)"""
    if n == 0:
        return [None] if bh == 0 else []
    out = []
    for a in range(n):
        if bh > 0:
            for l in trees(a, bh - 1, True):
                for r in trees(n - 1 - a, bh - 1, True):
                    out.append(('B', l, r))
        if red_ok:
            for l in trees(a, bh, False):
                for r in trees(n - 1 - a, bh, False):
                    out.append(('R', l, r))
    return out


def shapes(n):
    return [t for bh in range(0, 5) for t in trees(n, bh, False)]


def insert(t, k):
    """reference insertion (Okasaki) on (colour, left, key, right)"""
    def bal(c, l, x, r):
        if c == 'B':
            if l and l[0] == 'R' and l[1] and l[1][0] == 'R':
                return ('R', ('B',) + l[1][1:], l[2], ('B', l[3], x, r))
            if l and l[0] == 'R' and l[3] and l[3][0] == 'R':
                return ('R', ('B', l[1], l[2], l[3][1]), l[3][2], ('B', l[3][3], x, r))
            if r and r[0] == 'R' and r[1] and r[1][0] == 'R':
                return ('R', ('B', l, x, r[1][1]), r[1][2], ('B', r[1][3], r[2], r[3]))
            if r and r[0] == 'R' and r[3] and r[3][0] == 'R':
                return ('R', ('B', l, x, r[1]), r[2], ('B',) + r[3][1:])
        return (c, l, x, r)

    def ins(t):
        if t is None:
            return ('R', None, k, None)
        c, l, x, r = t
        return bal(c, ins(l), x, r) if k < x else bal(c, l, x, ins(r))
    return ('B',) + ins(t)[1:]


def built(keys):
    t = None
    for k in keys:
        t = insert(t, k)

    def strip(t):
        return t and (t[0], strip(t[1]), strip(t[3]))
    return strip(t)


def full(bh):
    return None if bh == 0 else ('B', full(bh - 1), full(bh - 1))


def deep(bh, right, red=False):
    """as lopsided as a red-black tree can be"""
    if bh == 0:
        return None
    a, b = (full(bh), deep(bh, right, False)) if red else (full(bh - 1), deep(bh - 1, right, True) if bh > 1 else None)
    return ('R' if red else 'B',) + ((a, b) if right else (b, a))


def size(t):
    return 0 if t is None else 1 + size(t[1]) + size(t[2])


def ends(t):
    """the root and its neighbours"""
    n = size(t[1])
    return (n - 1, n)


class Given:
    def __init__(self, ck, X):
        self.ck, self.X = ck, X
        self.M = dict(X.M)

        def less(eng, st, args, ins):
            return BInt(self.rank(eng, st, args[1]) < self.rank(eng, st, args[2]))
        for f in [k for k in X.M if k.startswith('_ZNK1Ccl')]:
            self.M[f] = less

    def rank(self, eng, st, p):
        if isinstance(p, Ptr) and p.obj == 'k2':
            return self.vrank
        t = E_get(eng, st, p, 'comparing')
        if not isinstance(t, Term):
            raise Bad('comparison of %r' % (t,))
        if t.src == 'v':
            return self.vrank
        if t.src[:2] in ('k:', 'q:'):
            return 2 * int(t.src[2:]) + 1
        if t.src[:2] == 'm:' or t.src == 'mv':
            raise Bad('the comparison is applied to a mapped value')
        raise Lost('comparison of %r' % (t,))

    def put(self, st, t, name='s', pre='n', kind='ext', key='k:'):
        """the container `name` with the tree t; -> nodes in order"""
        X, y = self.X, self.X.lay
        order = []

        def rec(t, p):
            if t is None:
                return NULL
            c, l, r = t
            me = '%s%d' % (pre, self.cnt)
            self.cnt += 1
            L1 = rec(l, me)
            i = len(order)
            order.append(me)
            cells = {y.p: (8, Ptr(p) if p else NULL), y.c: (y.cw, L(y.red if c == 'R' else y.black)), y.l: (8, L1)}
            for off, e in y.elems:
                cells[off] = (8, Term((key if e == 'k' else 'm:') + str(i), (), 'E'))
            R1 = rec(r, me)
            cells[y.r] = (8, R1)
            st.mem[me] = Flat('heap', y.size, cells, tag='AL')
            return Ptr(me)
        self.cnt = 0
        root = rec(t, None)
        st.mem[name] = Flat(kind, X.size, {X.root: (8, root), X.begin: (8, Ptr(order[0]) if order else NULL), X.sz: (8, L(len(order)))})
        return order

    def value(self, st, k2=False):
        if k2:
            st.mem['k2'] = Flat('ro', 8, {0: (8, Lin.sym('k2.v'))})
            return Ptr('k2')
        cells = {0: (8, Term('v', (), 'E'))}
        if self.X.map:
            cells[8] = (8, Term('mv', (), 'E'))
        st.mem['v'] = Flat('ro', 16 if self.X.map else 8, cells)
        return Ptr('v')

    def go(self, name, entry, st, args):
        def mk(mod, M):
            e = Engine(mod, M)
            e.given = 300
            return e
        self.ck.make_engine = mk
        try:
            outs = self.ck.returns(self.ck.run('%s: %s' % (self.X.nm, name), self.X.mod, entry, st, args, self.M))
        finally:
            del self.ck.make_engine
        for o in outs:
            self.ck.no_stack_elements(o)
        return outs

    def read(self, o, name='s'):
        """the tree as a list of (node, key, mapped), checking links and colours; None on violations"""
        ck, X, y = self.ck, self.X, self.X.lay
        out, seen = [], set()
        ok = [True]

        def bad(msg, tag):
            ok[0] = False
            ck.fail(o, msg, tag)

        def get(n, off):
            v = o.st.mem[n].cells.get(off, (8, RAW))[1]
            if v == ZERO:
                v = NULL
            return v

        def rec(p, parent, red):
            if p == NULL:
                return 0
            if not isinstance(p, Ptr) or p.off != ZERO or p.obj not in o.st.mem:
                bad('a link of the tree is %r' % (p,), 'link')
                return None
            n = p.obj
            ob = o.st.mem[n]
            if not isinstance(ob, Flat) or not ob.alive:
                bad('a link of the tree leads to a released node', 'link')
                return None
            if n in seen:
                bad('two links of the tree lead to the same node', 'link')
                return None
            seen.add(n)
            if get(n, y.p) != parent:
                bad('a parent link is %r instead of %r' % (get(n, y.p), parent), 'link')
            c = ob.cells.get(y.c, (4, RAW))[1]
            isred = c == L(y.red)
            if not isred and c != L(y.black):
                bad('the colour of a node is %r' % (c,), 'rb')
            if isred and red:
                bad('a red node has a red child', 'rb')
            a = rec(get(n, y.l), p, isred)
            out.append((n,) + tuple(get(n, off) for off, e in y.elems))
            b = rec(get(n, y.r), p, isred)
            if a is None or b is None:
                return None
            if a != b:
                bad('paths with different numbers of black nodes', 'rb')
            return a + (0 if isred else 1)
        root = get(name, X.root)
        rec(root, NULL, False)
        if isinstance(root, Ptr) and root.obj in seen and o.st.mem[root.obj].cells.get(y.c, (4, RAW))[1] != L(y.black):
            bad('the root is not black', 'rb')
        if ok[0]:
            ck.eq(o, get(name, X.sz) if out else o.st.mem[name].cells.get(X.sz, (8, RAW))[1], L(len(out)), 'the size', 'ord')
            ck.prove(o, get(name, X.begin) == (Ptr(out[0][0]) if out else NULL), 'the first element is %r' % (get(name, X.begin),), 'first')
        return out

    def holds(self, o, name, want, what):
        have = self.read(o, name)
        self.ck.prove(o, [h[1:] for h in have] == want, '%s: %r instead of %r' % (what, [h[1:] for h in have], want), 'ord')
        return have

    def elems(self, n, key='k:'):
        return [tuple(Term((key if e == 'k' else 'm:') + str(i), (), 'E') for off, e in self.X.lay.elems) for i in range(n)]

    def owned(self, o, *names):
        own = set()
        for n in names:
            own |= {h[0] for h in self.read(o, n)}
        for k, ob in o.st.mem.items():
            if isinstance(ob, Flat) and ob.kind == 'heap' and ob.tag == 'AL' and ob.alive and k not in own:
                self.ck.fail(o, 'a node is not released', 'life')

    def insertion(self, t, hint=False, gaps=None):
        st0 = State()
        n = len(self.put(st0.copy(), t))
        for vr in gaps or range(2 * n + 1):
            st = State()
            nodes = self.put(st, t)
            st.mem['r'] = Flat('ext', 16, {})
            v = self.value(st)
            self.vrank = vr
            for h in ([None] + nodes if hint else [0]):
                s = st.copy()
                a = [Ptr('r'), Ptr('s')] + ([] if h == 0 else [NULL if h is None else Ptr(h)]) + [v]
                for o in self.go('insertion%s (given shape)' % (' with a hint' if hint else ''), 'h_inserthint' if hint else 'h_insert', s, a):
                    old = self.elems(n)
                    i = vr // 2
                    new = vr % 2 == 0
                    want = old[:i] + [tuple(Term('v' if e == 'k' else 'mv', (), 'E') for off, e in self.X.lay.elems)] + old[i:] if new else old
                    have = self.holds(o, 's', want, 'the elements')
                    if [x[1:] for x in have] != want:
                        continue
                    ck = self.ck
                    ck.eq(o, o.st.mem['r'].cells.get(0, (8, RAW))[1], Ptr(have[i][0]), 'the returned iterator', 'ord')
                    if not hint:
                        b = o.st.mem['r'].cells.get(8, (1, RAW))[1]
                        b = b.cond if isinstance(b, BInt) else cnot(eq0(b)) if isinstance(b, Lin) else False
                        ck.prove(o, b if new else cnot(b), 'the returned flag is wrong', 'ord')
                    ck.prove(o, [x[0] for x in have if x[1].src != 'v'] == nodes, 'an existing element moved to another node', 'it')
                    self.owned(o, 's')

    def lookup(self, t, which=None):
        n = len(self.put(State(), t))
        for entry in ('h_find', 'h_cfind', 'h_find2', 'h_cfind2'):
            for vr in which or range(2 * n + 1):
                st = State()
                nodes = self.put(st, t, kind='ro' if entry.startswith('h_c') else 'ext')
                st.mem['r'] = Flat('ext', 16, {})
                if entry[-1] == '2':
                    v = self.value(st, True)
                else:
                    st.mem['v'] = Flat('ro', 8, {0: (8, Term('v', (), 'E'))})
                    v = Ptr('v')
                self.vrank = vr
                for o in self.go('%slookup%s (given shape)' % ('const ' if entry.startswith('h_c') else '', ' by another type' if entry[-1] == '2' else ''), entry, st, [Ptr('r'), Ptr('s'), v]):
                    self.ck.eq(o, o.st.mem['r'].cells.get(0, (8, RAW))[1], Ptr(nodes[vr // 2]) if vr % 2 else NULL, 'the result of the lookup', 'ord')
                    self.holds(o, 's', self.elems(n), 'the elements after a lookup')

    def clearing(self, t):
        for fn in ('clear', 'dtor'):
            st = State()
            self.put(st, t)
            for o in self.go('%s (given shape)' % {'clear': 'clear', 'dtor': 'destruction'}[fn], 'h_' + fn, st, [Ptr('s')]):
                if fn == 'clear':
                    self.holds(o, 's', [], 'the elements')
                    self.owned(o, 's')
                else:
                    self.owned(o)

    def steps(self, t, which=None):
        n = len(self.put(State(), t))
        for kind in 'ic' if self.X.map else 'i':
            for i in range(n) if which is None else which(n):
                for fn in ('inc', 'incp'):
                    st = State()
                    nodes = self.put(st, t)
                    st.mem['i'] = Flat('ext', 8, {0: (8, Ptr(nodes[i]))})
                    st.mem['r'] = Flat('ext', 8, {})
                    for o in self.go('%s (given shape)' % ('++ iterator' if fn == 'inc' else 'post ++ iterator'), 'h_%s%s' % (kind, fn), st, [Ptr('r'), Ptr('i')]):
                        nxt = Ptr(nodes[i + 1]) if i + 1 < n else NULL
                        self.ck.eq(o, o.st.mem['i'].cells.get(0, (8, RAW))[1], nxt, 'the iterator after increment', 'it')
                        self.ck.eq(o, o.st.mem['r'].cells.get(0, (8, RAW))[1], nxt if fn == 'inc' else Ptr(nodes[i]), 'the result of the increment', 'it')

    def copies(self, t, u=None, big=False):
        fns = ('copy', 'move') if u is None else ('assign', 'massign')
        for fn in fns:
            st = State()
            cp = fn in ('copy', 'assign')
            src = self.put(st, t, 'o', 'o', 'ro' if cp else 'ext')
            if cp:
                for k in src:
                    st.mem[k] = st.mem[k]
            if u is None:
                st.mem['s'] = Flat('ext', self.X.size, {})
            else:
                self.put(st, u[0], 's', 'n', key='q:')
            for o in self.go('%s (given shape)' % {'copy': 'copy construction', 'move': 'move construction', 'assign': 'assignment', 'massign': 'move assignment'}[fn], 'h_' + fn, st, [Ptr('s'), Ptr('o')]):
                want = self.elems(len(src))
                have = self.holds(o, 's', want, 'the elements of the new container')
                if cp:
                    old = self.holds(o, 'o', want, 'the elements of the source')
                    self.ck.prove(o, [x[0] for x in old] == src, 'the nodes of the source are replaced', 'life')
                other = self.read(o, 'o')
                self.ck.prove(o, not {x[0] for x in have} & {x[0] for x in other}, 'the two containers share nodes', 'life')
                self.owned(o, 's', 'o')

    def selfassign(self, t):
        st = State()
        nodes = self.put(st, t)
        for o in self.go('self-assignment (given shape)', 'h_selfassign', st, [Ptr('s')]):
            self.holds(o, 's', self.elems(len(nodes)), 'the elements')
            self.owned(o, 's')

    def run(self):
        X = self.X
        small = [t for n in range(0, 5) for t in shapes(n)]
        five = small + shapes(5) + shapes(6)
        up, down = built(range(40)), built(range(40, 0, -1))
        mixed = built([(i * 17) % 41 for i in range(41)])
        for t in five:
            self.insertion(t)
        for t in (up, down, mixed):
            self.insertion(t, gaps=[0, 1, 2, 13, 26, 40, 41, 55, 79, 80])
        if not X.map:
            for t in small:
                self.insertion(t, True)
        for t in small + [built(range(9))]:
            self.lookup(t)
        for t in small + [up, down, mixed]:
            self.clearing(t)
        for t in five:
            self.steps(t)
        for t in (up, down, mixed):
            self.steps(t)
        lop = [deep(6, True), deep(6, False), ('B', deep(5, True), full(5)), ('B', full(5), deep(5, False))]
        for t in lop:
            self.steps(t, lambda n: [0, n // 2 - 1, n - 1] + [i for i in range(n) if i in ends(t)])
            m = size(t)
            self.insertion(t, gaps=[0, 2 * m, 2 * size(t[1]), 2 * size(t[1]) + 2])
            self.lookup(t, [0, 1, 2 * m, 2 * m - 1, 2 * size(t[1]) - 1, 2 * size(t[1]), 2 * size(t[1]) + 2, 2 * size(t[1]) + 3])
        for t in small + [built(range(9)), built(range(9, 0, -1)), up]:
            self.copies(t)
        tiny = [t for n in range(0, 4) for t in shapes(n)]
        for t in tiny:
            self.selfassign(t)
            for u in tiny:
                self.copies(t, (u,))
        self.copies(built(range(9)), (built(range(12)),))
        self.copies(built(range(12)), (built(range(9)),))
