"""Shape domain for binary search trees.

A state describes every tree that matches it: part of the tree is materialised
as nodes, the rest are opaque subtrees (any contents, any shape of the given
black height and root colour) and, above, an opaque context.  Looking into an
opaque part partitions the state into the forms it can have (unfolding).  The
nodes and opaque parts are listed in symmetric order; what is known about the
order of the searched key relative to them is kept per item.

Two ways of running: 'prove' replaces recursive calls by their contract (which
is verified for the body) and loops by an inductive description of their
states; 'unroll' follows recursion and loops exactly up to a depth and is what
violations are reported from."""
from .absint import *
from .models import E_get

FULL = frozenset(('lt', 'eq', 'gt'))
LT, EQ, GT = frozenset(('lt',)), frozenset(('eq',)), frozenset(('gt',))


class Split(Fork):
    """the state has to be partitioned by a function of it"""

    def __init__(self, f, what=''):
        Fork.__init__(self, ('split', what))
        self.f = f

    def states(self, st):
        return self.f(st)


class Tree:
    """an opaque subtree"""
    size = None
    cols = ()
    ends = ()
    cells = {}

    def __init__(self, parent, bh, col='any', nn=False, ins=None, alive=True, locked=False, cnt=None):
        self.kind, self.tag = 'tree', 'tree'
        self.cnt = cnt
        self.parent, self.bh, self.col, self.nn, self.ins, self.alive, self.locked = parent, bh, col, nn, ins, alive, locked

    def copy(self, **kw):
        o = Tree(self.parent, self.bh, self.col, self.nn, self.ins, self.alive, self.locked, self.cnt)
        for k, v in kw.items():
            setattr(o, k, v)
        return o

    def subst(self, m):
        b = self.bh.subst(m)
        c = self.cnt and self.cnt.subst(m)
        return self if b is self.bh and c is self.cnt else self.copy(bh=b, cnt=c)

    def syms(self, acc):
        vsyms(self.bh, acc)
        if self.cnt is not None:
            vsyms(self.cnt, acc)

    def key(self):
        return (self.parent, self.bh, self.col, self.nn, self.ins, self.alive, self.locked)


class Ctx:
    """everything above a subtree: what the parent pointer of its root means"""
    def __init__(self, child):
        self.kind, self.tag, self.alive, self.child = 'ctx', 'ctx', True, child

    def subst(self, m):
        return self

    def syms(self, acc):
        pass

    def key(self):
        return (self.child,)


class Order:
    """items in symmetric order: ('T', subtree) ('N', node) ('C', chunk)"""
    def __init__(self, items, rel=None, shape=None, ins=None):
        self.kind, self.tag, self.alive = 'order', 'order', True
        self.items, self.rel, self.shape, self.ins = tuple(items), rel or {}, shape or {}, ins

    def copy(self, **kw):
        o = Order(self.items, self.rel, self.shape, self.ins)
        for k, v in kw.items():
            setattr(o, k, v)
        return o

    def subst(self, m):
        return self

    def syms(self, acc):
        pass

    def replace(self, old, new):
        out = []
        for x in self.items:
            if x == old:
                out += new
            else:
                out.append(x)
        return self.copy(items=tuple(out))

    def index(self, name):
        for i, x in enumerate(self.items):
            if x[1] == name:
                return i
        return None

    def relation(self, name):
        """what is known of the keys of an item relative to the searched one"""
        own = self.rel.get(name, FULL)
        i = 0 if name == '#first' else self.index(name)
        if i is None:
            return own
        f = self.rel.get('#first', FULL)
        if f == GT:
            own = own & GT
        for j, (t, n) in enumerate(self.items):
            if t != 'N':
                continue
            r = self.rel.get(n, FULL)
            if name == '#first':
                if r == LT:
                    own = own & LT
                elif r <= frozenset(('lt', 'eq')):
                    own = own & frozenset(('lt', 'eq'))
            elif j > i and r <= frozenset(('lt', 'eq')):
                own = own & LT
            elif j < i and r <= frozenset(('eq', 'gt')):
                own = own & GT
        return own

    def know(self, name, r):
        d = dict(self.rel)
        d[name] = r
        return self.copy(rel=d)


class Layout:
    def __init__(self, size, x, l, r, p, c, red, black, elems, cw=4):
        self.size, self.x, self.l, self.r, self.p, self.c = size, x, l, r, p, c
        self.red, self.black, self.elems, self.cw = red, black, elems, cw


def repl(st, obj, new, off_ok=True):
    """every pointer to obj becomes new"""
    def f(p, lo, hi):
        if p.obj == obj:
            if p.off == ZERO:
                return new
            if new.obj is not None:
                return Ptr(new.obj, new.off + p.off)
            return Ptr(None, p.off)
        return p
    mem = {k: o for k, o in st.mem.items() if not isinstance(o, (Flat, Arr))}
    s = st.copy()
    s.mem = {k: o for k, o in st.mem.items() if isinstance(o, (Flat, Arr))}
    s = map_ptrs(s, f)
    for k, o in mem.items():
        if isinstance(o, Tree) and o.parent.obj == obj:
            o = o.copy(parent=f(o.parent, None, None))
        s.mem[k] = o
    return s


class TreeEngine(Engine):
    def __init__(self, mod, models, lay, mode, kind=None, limit=3, colours=True, approx=True, trace=False):
        Engine.__init__(self, mod, models, trace)
        self.lay, self.mode, self.rkind, self.limit, self.colours, self.approx = lay, mode, kind, limit, colours, approx
        self.active = []
        self.budget = 4000000
        self.deadline = time.time() + 30
        self.MAXSTATES = 20000
        self.report = None       # (outcome, condition, message): obligations of contracts
        self.dropped = 0

    # ------------------------------------------------------------ unfolding
    def node(self, st, name, l, r, p, col):
        y = self.lay
        cells = {y.l: (8, l), y.r: (8, r), y.p: (8, p), y.c: (y.cw, col)}
        for off, pre in y.elems:
            cells[off] = (8, Term(pre + ':' + name, (), 'E'))
        st.mem[name] = Flat('heap', y.size, cells, tag='AL')

    def order(self, st):
        return st.mem['#order']

    def settle(self, st):
        """the least item is known"""
        o = self.order(st)
        if o.items and o.items[0][0] != 'N':
            return st
        n = o.items[0][1] if o.items else None
        rel = dict(o.rel)
        if '#first' in rel:
            r = rel.pop('#first')
            if n:
                rel[n] = rel.get(n, FULL) & r
            st.mem['#order'] = o.copy(rel=rel)
        return repl(st, '#first', Ptr(n) if n else NULL)

    def unfold(self, st, name):
        o = st.mem[name]
        if isinstance(o, Ctx):
            return self.unfold_ctx(st, name)
        if o.locked:
            raise Lost('access to a part of the tree that is not described')
        if o.alive is False:
            raise Bad('access to a node that has been released')
        y = self.lay
        res = []
        od = self.order(st)
        if not o.nn:
            s = repl(st, name, NULL)
            del s.mem[name]
            sh = dict(od.shape)
            sh[name] = 'null'
            rel = dict(od.rel)
            rel.pop(name, None)
            s.mem['#order'] = od.copy(shape=sh, rel=rel).replace(('T', name), [])
            for s1 in assume(s, eq0(o.bh), False):
                if o.cnt is not None:
                    res += assume(s1, eq0(s1.L(o.cnt)), False)
                else:
                    res.append(s1)
        cases = []
        if not self.colours:
            cases.append((TOP, o.bh, o.bh, 'any', 'any', 'node'))
        elif o.ins is None:
            if o.col == 'any':
                cases.append((L(y.red), o.bh, o.bh, 'black', 'black', 'red'))
            cases.append((L(y.black), o.bh - 1, o.bh - 1, 'any', 'any', 'black'))
        else:
            if o.ins == 'any':
                cases.append((L(y.red), o.bh, o.bh, 'any', 'black', 'red'))
                cases.append((L(y.red), o.bh, o.bh, 'black', 'any', 'red'))
            else:
                cases.append((L(y.red), o.bh, o.bh, 'black', 'black', 'red'))
            cases.append((L(y.black), o.bh - 1, o.bh - 1, 'any', 'any', 'black'))
        for col, bl, br, cl, cr, shape in cases:
            s = st.copy()
            nl, nr = name + 'l', name + 'r'
            if self.colours:
                ss = assume(s, ge(bl), False)
                if not ss:
                    continue
                s = ss[0].copy()
                bl, br = s.L(bl), s.L(br)
            # children of an inserted tree that can be red-rooted are still ordinary trees
            s.mem[nl] = Tree(Ptr(name), bl, cl)
            s.mem[nr] = Tree(Ptr(name), br, cr)
            self.node(s, name, Ptr(nl), Ptr(nr), o.parent, col)
            sh = dict(od.shape)
            sh[name] = shape
            rel = dict(od.rel)
            r = rel.pop(name, None)
            if r is not None:
                for k in (nl, name, nr):
                    rel[k] = r
            s.mem['#order'] = od.copy(shape=sh, rel=rel).replace(('T', name), [('T', nl), ('N', name), ('T', nr)])
            if o.cnt is not None:
                res += assume(s, ge(s.L(o.cnt) - 1), False)
            else:
                res.append(s)
        return [self.settle(s) for s in res]

    def unfold_ctx(self, st, name):
        c = st.mem[name]
        od = self.order(st)
        if c.child is None:
            raise Lost('access to the unknown surroundings of a subtree')
        res = []
        lc, rc = ('C', name + '<'), ('C', name + '>')
        # the subtree is the whole tree
        s = repl(st, name, NULL)
        del s.mem[name]
        s.mem['#order'] = od.replace(lc, []).replace(rc, [])
        res.append(s)
        depth = name + "'"
        for left in (True, False):
            s = st.copy()
            k, up, sib = name + 'N', depth, name + 'S'
            s = repl(s, name, Ptr(k))
            del s.mem[name]
            s.mem[up] = Ctx(k)
            s.mem[sib] = Tree(Ptr(k), L(0), 'any')
            ch = Ptr(c.child)
            self.node(s, k, ch if left else Ptr(sib), Ptr(sib) if left else ch, Ptr(up), TOP)
            l2, r2 = ('C', up + '<'), ('C', up + '>')
            if left:
                o2 = od.replace(lc, [l2]).replace(rc, [('N', k), ('T', sib), r2])
            else:
                o2 = od.replace(lc, [l2, ('T', sib), ('N', k)]).replace(rc, [r2])
            s.mem['#order'] = o2
            res.append(s)
        return res

    def first_unfold(self, st):
        t, n = self.order(st).items[0]
        if t != 'T':
            raise Lost('access to the first element')
        return self.unfold(st, n)

    # ------------------------------------------------------------ engine hooks
    def obj(self, st, p, what):
        if isinstance(p, Ptr) and p.obj is not None:
            o = st.mem.get(p.obj)
            if isinstance(o, Tree) and o.locked:
                raise Lost('%s of a part of the tree that is not described' % what)
            if isinstance(o, (Tree, Ctx)):
                raise Split(lambda s: self.unfold(s, p.obj), p.obj)
            if p.obj == '#first':
                raise Split(self.first_unfold, p.obj)
            if p.obj[0] == '#':
                raise Lost('%s of %s' % (what, p.obj))
        return Engine.obj(self, st, p, what)

    def nonnull(self, st, p):
        """True when certainly not null, None when unknown"""
        if p.obj is None:
            return p.off != ZERO
        o = st.mem.get(p.obj)
        if isinstance(o, Tree):
            return True if o.nn or p.off != ZERO else None
        if isinstance(o, Ctx):
            return None
        if p.obj == '#first':
            it = self.order(st).items
            for t, n in it:
                if t == 'N' or t == 'T' and st.mem[n].nn:
                    return True
            return None
        return True

    def opaque(self, st, p):
        return isinstance(p, Ptr) and p.obj is not None and (p.obj[0] == '#' or isinstance(st.mem.get(p.obj), (Tree, Ctx)))

    def icmp(self, st, pred, a, b, bits):
        if pred in ('eq', 'ne') and isinstance(a, Ptr) and isinstance(b, Ptr) and a != b and (self.opaque(st, a) or self.opaque(st, b)):
            r = self.tree_eq(st, a, b)
            return BInt(r if pred == 'eq' else not r)
        return Engine.icmp(self, st, pred, a, b, bits)

    def tree_eq(self, st, a, b):
        if not self.opaque(st, a):
            a, b = b, a
        if a.obj in ('#new', '#eq') or b.obj in ('#new', '#eq'):
            if NULL in (a, b):
                return False
            raise Lost('comparison of nodes inside opaque subtrees')
        if b == NULL:
            if self.nonnull(st, a):
                return False
            if a.obj == '#first':
                raise Split(self.first_unfold, a.obj)
            raise Split(lambda s: self.unfold(s, a.obj), a.obj)
        if '#first' in (a.obj, b.obj):
            raise Split(self.first_unfold, '#first')
        # two different places of the tree: equal only if both are null
        if self.nonnull(st, a) or self.nonnull(st, b):
            return False
        raise Split(lambda s: self.unfold(s, a.obj), a.obj)

    # ------------------------------------------------------------ the order of keys
    def who(self, st, p, what='comparing'):
        """the element a pointer refers to: 'V' (the searched key) or the name of a node"""
        if isinstance(p, Ptr) and p.obj == '#first':
            return '#first'
        if isinstance(p, Ptr) and p.obj == 'k2':
            return 'V'
        t = E_get(self, st, p, what)
        if not isinstance(t, Term):
            raise Lost('comparison of %r' % (t,))
        if t.src == 'v':
            return 'V'
        if t.src.startswith('k:'):
            return t.src[2:]
        if t.src.startswith(('m:', 'mv')):
            raise Bad('the comparison is applied to a mapped value')
        raise Lost('comparison of %r' % (t,))

    def less(self, st, args):
        a, b = self.who(st, args[1]), self.who(st, args[2])
        if a == b:
            return BInt(False)
        od = self.order(st)
        if a != 'V' and b != 'V':
            if '#first' in (a, b):
                raise Split(self.first_unfold, '#first')
            i, j = od.index(a), od.index(b)
            if i is None or j is None:
                raise Lost('comparison of elements whose place is not known')
            return BInt(i < j)
        n, want = (b, 'gt') if a == 'V' else (a, 'lt')
        if n != '#first' and od.index(n) is None:
            raise Lost('comparison with an element whose place is not known')
        r = od.relation(n)
        if want not in r:
            return BInt(False)
        if r == frozenset((want,)):
            return BInt(True)

        def f(s):
            out = []
            for part in (frozenset((want,)), r - frozenset((want,))):
                s2 = s.copy()
                s2.mem['#order'] = self.order(s).know(n, part)
                if all(self.order(s2).relation(x[1]) for x in self.order(s2).items):
                    out.append(s2)
            return out
        raise Split(f, (n, want))

    # ------------------------------------------------------------ recursion
    def run_func(self, fn, st, args):
        if fn.name in self.active:
            if self.mode == 'unroll':
                if self.active.count(fn.name) >= self.limit:
                    self.dropped += 1
                    return []
            else:
                return self.contract(fn, st, args)
        self.active.append(fn.name)
        try:
            return Engine.run_func(self, fn, st, args)
        finally:
            self.active.pop()

    def note_approx(self, s, why):
        if self.approx:
            s.approx(why)

    def contract(self, fn, st, args):
        if self.rkind == 'destroy':
            return self.contract_destroy(fn, st, args)
        if self.rkind == 'insert':
            return self.contract_insert(fn, st, args)
        raise Lost('recursive call')

    def contract_destroy(self, fn, st, args):
        ps = [a for a in args if isinstance(a, Ptr) and (a.obj is None or isinstance(st.mem.get(a.obj), Tree) or isinstance(st.mem.get(a.obj), Flat) and st.mem[a.obj].tag == 'AL')]
        if len(ps) != 1:
            raise Lost('recursive call without a recognisable subtree')
        p = ps[0]
        s = st.copy()
        self.note_approx(s, 'recursive calls are replaced by their contract')
        if p.obj is not None:
            self.kill(s, p.obj)
        s.frames = s.frames + [{}]
        return [Outcome('ret', s, RAW, fn.name)]

    def kill(self, s, name):
        o = s.mem[name]
        if o.alive is False:
            raise Bad('a node is released twice')
        if isinstance(o, Tree):
            s.mem[name] = o.copy(alive=False)
            return
        y = self.lay
        for off in (y.l, y.r):
            ch = o.cells[off][1]
            if isinstance(ch, Ptr) and ch.obj is not None:
                self.kill(s, ch.obj)
        for off, pre in y.elems:
            if o.cells.get(off, (8, RAW))[1] is RAW:
                raise Bad('an element is destroyed twice')
        s.mem[name] = o.copy(alive=False)

    # insertion
    def slot_of(self, st, args):
        c = []
        for a in args:
            if isinstance(a, Ptr) and a.obj in st.mem and isinstance(st.mem[a.obj], Flat) and a.off.is_const():
                v = st.mem[a.obj].cells.get(a.off.c, (8, None))[1]
                ob = st.mem[a.obj]
                node_link = ob.tag == 'AL' and a.off.c in (self.lay.l, self.lay.r)
                if node_link and isinstance(v, Ptr):
                    c.append(a)
        if len(c) != 1:
            raise Lost('recursive call without a recognisable subtree')
        return c[0]

    def effects(self, s, o, skip):
        """the cells of existing objects a call has changed"""
        out = {}
        for k, a in s.mem.items():
            b = o.mem.get(k)
            if not isinstance(a, Flat):
                continue
            if b is None:
                raise Lost('a call removes an object')
            if not isinstance(b, Flat) or a.alive != b.alive:
                raise Lost('a call changes the state of an object')
            for off in set(a.cells) | set(b.cells):
                if (k, off) in skip:
                    continue
                va, vb = a.cells.get(off), b.cells.get(off)
                if va != vb:
                    out[(k, off)] = vb
        return out

    def base_effects(self, fn, s, slot, args, states, name, pseudo):
        """what the call does to everything but the subtree, when it ends at once"""
        eff = []
        for s0 in states:
            n0 = set(s0.mem)
            self.active.append(fn.name)
            try:
                outs = Engine.run_func(self, fn, s0.copy(), [self.again(a, s0) for a in args])
            finally:
                self.active.pop()
            for o in outs:
                if o.st.cons.feasible() is False:
                    continue
                if o.kind != 'ret':
                    raise Lost('the base case of the recursion: %s' % o.val)
                new = [k for k in o.st.mem if k not in n0 and o.st.mem[k].kind == 'heap' and o.st.mem[k].alive]
                if pseudo == '#new':
                    if len(new) != 1 or o.st.mem[slot.obj].cells[slot.off.c][1] != Ptr(new[0]):
                        raise Lost('the base case of the recursion does not add one node')
                    who = new[0]
                else:
                    if new:
                        raise Lost('a rejected insertion allocates')
                    who = name
                e = self.effects(s0, o.st, {(slot.obj, slot.off.c)})
                e2 = {}
                for k, v in e.items():
                    if v is not None and isinstance(v[1], Ptr) and v[1].obj == who:
                        v = (v[0], Ptr(pseudo, v[1].off))
                    e2[k] = v
                eff.append(e2)
        if not eff:
            return None
        if self.begin:
            for e in eff:
                v = e.pop(self.begin, None)
                if v is not None and v[1] != Ptr('#new'):
                    raise Lost('the first element is set to something else')
        if any(e != eff[0] for e in eff):
            raise Lost('the base case of the recursion has several effects')
        return eff[0]

    def again(self, a, s):
        return a

    def contract_insert(self, fn, st, args):
        y = self.lay
        slot = self.slot_of(st, args)
        v = st.mem[slot.obj].cells[slot.off.c][1]
        if v.obj is None or not isinstance(st.mem.get(v.obj), Tree):
            raise Lost('recursive call on a subtree that has been looked at')
        name = v.obj
        t = st.mem[name]
        owner = Ptr(slot.obj)
        if t.parent != owner:
            raise Lost('recursive call on a subtree whose parent link is wrong')
        # the order: everything left of the subtree is less than the key, everything right of it greater
        od = self.order(st)
        i = od.index(name)
        for j, (_, n) in enumerate(od.items):
            r = od.relation(n)
            if j < i and r != LT or j > i and r != GT:
                raise Lost('recursive call into a subtree where the key does not belong')
        if od.ins:
            raise Lost('second recursive call')
        null = [s for s in self.unfold(st, name) if self.order(s).shape.get(name) == 'null']
        full = []
        for s in self.unfold(st, name):
            if self.order(s).shape.get(name) != 'null':
                s = s.copy()
                s.mem['#order'] = self.order(s).know(name, EQ)
                full.append(s)
        hold, self.approx = self.approx, False
        try:
            ins = self.base_effects(fn, st, slot, args, null, name, '#new') if not t.nn else None
            rej = self.base_effects(fn, st, slot, args, full, name, '#eq')
        finally:
            self.approx = hold
        if ins is None:
            # the subtree is known not to be empty: the effect is that of an empty one
            s = st.copy()
            s.mem[name] = t.copy(nn=False)
            ins = self.base_effects(fn, s, slot, args, [x for x in self.unfold(s, name) if self.order(x).shape.get(name) == 'null'], name, '#new')
        if self.active.count(fn.name) == 1:
            self.verify(fn, st, slot, name, args, ins, rej)
        outs = []
        for kind, eff in (('ins', ins), ('rej', rej)):
            s = st.copy()
            self.note_approx(s, 'recursive calls are replaced by their contract')
            for (k, off), c in eff.items():
                o = s.mem[k]
                cells = dict(o.cells)
                if c is None:
                    cells.pop(off, None)
                else:
                    cells[off] = c
                s.mem[k] = o.copy(cells=cells)
            if kind == 'ins':
                new = name + '+'
                s = repl(s, name, Ptr(new))
                del s.mem[name]
                s.mem[new] = t.copy(nn=True, ins=t.col, parent=owner, cnt=None)
                o2 = self.order(s).replace(('T', name), [('T', new)])
                rel = {k: v for k, v in o2.rel.items() if k != '#first'}
                s.mem['#order'] = o2.copy(ins=new, rel=rel)
            else:
                s.mem['#order'] = self.order(s).copy(ins='#eq')
            s.frames = s.frames + [{}]
            outs.append(Outcome('ret', s, RAW, fn.name))
        return outs

    def verify(self, fn, st, slot, name, args, ins, rej):
        """the body of the recursive function meets the contract its calls are replaced by"""
        n0 = set(st.mem)
        self.active.append(fn.name)
        try:
            outs = Engine.run_func(self, fn, st.copy(), args)
        finally:
            self.active.pop()
        colour = st.mem[name].col
        for o in outs:
            if o.st.cons.feasible() is False:
                continue
            if o.kind != 'ret':
                self.report(o, False, 'contract of the recursive insertion: %s' % o.val)
                continue
            todo = [o.st]
            while todo:
                s = todo.pop()
                try:
                    c = s.copy()
                    self.verify1(Outcome('ret', c, None, o.loc), st, n0, slot, name, ins, rej)
                except Fork as x:
                    try:
                        todo += x.states(s) if hasattr(x, 'states') else assume(s, x.cond, False) + assume(s, cnot(x.cond), False)
                    except (Lost, Bad) as y:
                        self.report(o, False, 'contract of the recursive insertion: %s' % y.msg)
                except (Lost, Bad) as x:
                    self.report(o, False, 'contract of the recursive insertion: %s' % x.msg)

    def verify1(self, o, st, n0, slot, name, ins, rej):
        s = o.st
        od = self.order(s)
        shape = od.shape.get(name, 'unknown')
        w = Walk()
        root = s.mem[slot.obj].cells[slot.off.c][1]
        bh, col = self.walk(s, root, Ptr(slot.obj), w, infra=shape == 'red')
        for c, msg, tag in w.bad:
            self.report(o, c, 'contract of the recursive insertion: ' + msg)
        if self.colours:
            self.report(o, eq0(bh - s.L(st.mem[name].bh)), 'contract of the recursive insertion: the black height changes')
            if shape == 'red':
                self.report(o, col == 'red', 'contract of the recursive insertion: a red root does not stay red')
        # the contents
        base = st.mem['#order'].items
        i = [x[1] for x in base].index(name)
        pre, post = i, len(base) - i - 1
        want = od.items[pre:len(od.items) - post]
        new = [k for k in s.mem if k not in n0 and s.mem[k].kind == 'heap' and s.mem[k].alive and k not in [x[1] for x in want]]
        done = self.contents(o, w.items, want, new, 'contract of the recursive insertion: ', lambda c, m, t: self.report(o, c, m))
        who = new[0] if new else '#new'
        skip = {(slot.obj, slot.off.c)}
        if self.begin:
            skip.add(self.begin)
        eff = self.effects(st, s, skip)
        exp = ins if done else rej
        eqn = None
        for n, r in od.rel.items():
            if r == EQ:
                eqn = n
        def norm(v):
            if v is not None and isinstance(v[1], Ptr) and v[1].obj is not None and v[1].obj in (who, eqn):
                return (v[0], Ptr('#new' if v[1].obj == who else '#eq', v[1].off))
            return v
        # cells that only mention parts of the subtree that turned out to be empty
        eff = {k: norm(v) for k, v in eff.items()}
        self.report(o, eff == exp, 'contract of the recursive insertion: other effects than at the end of the recursion (%r, %r)' % (eff, exp))
        if self.begin and done:
            k, off = self.begin
            b = s.mem[k].cells[off][1]
            first = self.first_of(s, od.items, new, w.items, pre)
            self.report(o, b == first, 'contract of the recursive insertion: the first element')
        elif self.begin:
            k, off = self.begin
            a, b = st.mem[k].cells[off][1], s.mem[k].cells[off][1]
            self.report(o, a == b or a == Ptr('#first') and b == (Ptr(od.items[0][1]) if od.items and od.items[0][0] == 'N' else a), 'contract of the recursive insertion: the first element changes')

    def first_of(self, s, items, new, walked, pre):
        seq = list(items[:pre]) + list(walked)
        if not seq:
            return NULL
        t, n = seq[0]
        if t == 'N':
            return Ptr(n)
        return Ptr('#first')

    # ------------------------------------------------------------ inspection
    def contents(self, o, items, want, new, pre, report):
        """the walked items are the wanted ones, possibly with the new node in its place; -> inserted?"""
        od = self.order(o.st)
        items = list(items)
        if new:
            report(len(new) == 1, pre + 'more than one node is added', 'life')
            h = ('N', new[0])
            if h not in items:
                report(False, pre + 'the new node is not part of the tree', 'ord')
                return True
            i = items.index(h)
            for n in items[:i]:
                report(od.relation(n[1]) == LT, pre + 'the new element is placed after one that is not less', 'ord')
            for n in items[i + 1:]:
                report(od.relation(n[1]) == GT, pre + 'the new element is placed before one that is not greater', 'ord')
            items.remove(h)
        report(items == list(want), pre + 'the elements of the tree or their order change (%r, were %r)' % ([x[1] for x in items], [x[1] for x in want]), 'ord')
        return bool(new) or bool(od.ins and od.ins != '#eq')

    def walk(self, st, p, parent, w, infra=False, depth=0):
        """-> (black height, 'red'/'black'); items and defects in w"""
        y = self.lay
        if depth > 12:
            raise Bad('the tree contains a cycle')
        if not isinstance(p, Ptr):
            raise Bad('a link of the tree is indeterminate')
        if p == NULL:
            return ZERO, 'black'
        o = st.mem.get(p.obj)
        if p.obj in w.seen:
            raise Bad('a node is linked twice')
        w.seen.add(p.obj)
        if isinstance(o, Tree):
            if o.alive is False:
                raise Bad('the tree contains a released node')
            if o.ins == 'any' and self.colours:
                raise Split(lambda s: self.unfold(s, p.obj), p.obj)
            w.items.append(('T', p.obj))
            if o.nn:
                w.bad.append((o.parent == parent, 'the parent link of %s is %r instead of %r' % (p.obj, o.parent, parent), 'link'))
            elif o.parent != parent:
                raise Split(lambda s: self.unfold(s, p.obj), p.obj)
            return o.bh, ('any' if o.col == 'any' else 'black')
        if not isinstance(o, Flat) or o.tag != 'AL' or p.off != ZERO:
            raise Bad('a link of the tree designates %r' % p)
        if o.alive is False:
            raise Bad('the tree contains a released node')
        g = lambda off: o.cells.get(off, (8, RAW))[1]
        l, r, pp, c = g(y.l), g(y.r), g(y.p), g(y.c)
        bl, cl = self.walk(st, l, p, w, False, depth + 1)
        w.items.append(('N', p.obj))
        br, cr = self.walk(st, r, p, w, False, depth + 1)
        w.bad.append((pp == parent, 'the parent link of a node is %r instead of %r' % (pp, parent), 'link'))
        for off, pre in y.elems:
            if g(off) is RAW or g(off) is MOVED:
                w.bad.append((False, 'the element of a node is not alive', 'life'))
            elif p.obj in [x[1] for x in self.order(st).items]:
                w.bad.append((g(off) == Term(pre + ':' + p.obj, (), 'E'), 'the element of a node changes', 'ord'))
        if not self.colours:
            return ZERO, 'black'
        if not isinstance(c, Lin) or not c.is_const():
            w.bad.append((False, 'the colour of a node is indeterminate', 'rb'))
            return bl, 'black'
        w.bad.append((eq0(bl - br), 'paths with different numbers of black nodes', 'rb'))
        red = c.c == y.red
        if red:
            for q, k in ((l, cl), (r, cr)):
                if k == 'any':
                    if not infra:
                        raise Split(lambda s: self.unfold(s, q.obj), q.obj)
            nred = (cl == 'red') + (cr == 'red')
            if infra:
                for q, k in ((l, cl), (r, cr)):
                    if k == 'any' and (cl, cr).count('black') < 1:
                        raise Split(lambda s: self.unfold(s, q.obj), q.obj)
                w.bad.append((nred <= 1, 'a red node has two red children', 'rb'))
            else:
                w.bad.append((nred == 0, 'a red node has a red child', 'rb'))
        return (bl if red else bl + 1), ('red' if red else 'black')

    # ------------------------------------------------------------ loops
    begin = None

    def sig(self, st, phis):
        d = {('r', k): v for k, v in st.regs.items() if k in phis}
        for k, o in st.mem.items():
            if isinstance(o, Flat):
                for off, c in o.cells.items():
                    d[(k, off)] = c[1]
                d[(k, 'alive')] = o.alive
            elif isinstance(o, (Tree, Ctx)):
                d[(k, 'key')] = o.key()
        return d

    def loop(self, F, Lp, st):
        if '#order' not in st.mem:
            return Engine.loop(self, F, Lp, st)
        self.stats['loops'] += 1
        phis = set(self.phi_ids(F, Lp))
        if self.mode == 'unroll':
            exits, outs = [], []
            work = [(st.copy(), (self.sig(st, phis),))]
            for i in range(self.limit + 2):
                nxt = []
                for s, seen in work:
                    b, e, o = self.region(F, [(Lp.header, s)], Lp)
                    exits += e
                    outs += o
                    for x in b:
                        g = self.sig(x, phis)
                        if g in seen:
                            outs.append(Outcome('bad', x, 'the loop never ends', self.loop_loc(F, Lp)))
                        else:
                            nxt.append((x, seen + (g,)))
                work = nxt
                if not work:
                    break
            self.dropped += len(work)
            return exits, outs
        try:
            return self.tree_loop(F, Lp, st, phis)
        except Lost as e:
            return [], [Outcome('lost', st, 'loop not summarised: ' + e.msg, self.loop_loc(F, Lp))]

    def tree_loop(self, F, Lp, st, phis):
        b, e, o = self.region(F, [(Lp.header, st.copy())], Lp)
        if not b:
            return e, o
        moves = [self.moves(st, x, phis) for x in b]
        keys = sorted({k for m in moves for k in m}, key=repr)
        down = self.down(st, b, moves, keys)
        g = down or self.up(st, b, moves, keys)
        if g is None:
            raise Lost('the loop does not walk down or up the tree (%r)' % (keys,))
        G, check = g
        self.note_approx(G, 'the loop is described inductively')
        b2, e2, o2 = self.region(F, [(Lp.header, G.copy())], Lp)
        for x in b2:
            m = self.moves(G, x, phis)
            msg = check(G, x, m)
            if msg:
                raise Lost(msg)
        self.stats['accelerated'] += 1
        return e2, o2

    def moves(self, s, x, phis):
        """the places whose value differs, other than by looking into opaque parts"""
        out = {}
        sh = self.order(x).shape

        def same(a, b):
            if a == b or a is b:
                return True
            if isinstance(a, Ptr) and isinstance(b, Ptr) and b == NULL and (sh.get(a.obj) == 'null' or a.obj not in x.mem and isinstance(s.mem.get(a.obj), Ctx)):
                return True
            if isinstance(a, Ptr) and isinstance(s.mem.get(a.obj), Ctx) and b == Ptr(a.obj + 'N'):
                return True
            if isinstance(a, Ptr) and a.obj == '#first':
                od = self.order(x)
                return bool(od.items) and b == Ptr(od.items[0][1]) or not od.items and b == NULL
            return False
        for k in phis:
            a, b = s.regs.get(k), x.regs.get(k)
            if not same(a, b):
                out[('r', k)] = (a, b)
        for k, o in s.mem.items():
            p = x.mem.get(k)
            if isinstance(o, Flat):
                if not isinstance(p, Flat) or p.alive != o.alive:
                    raise Lost('the loop changes objects')
                for off in set(o.cells) | set(p.cells):
                    a, b = o.cells.get(off, (0, None)), p.cells.get(off, (0, None))
                    if a[0] != b[0] or not same(a[1], b[1]):
                        out[(k, off)] = (a[1], b[1])
            elif isinstance(o, Tree) and isinstance(p, Tree) and o.key() != p.key():
                raise Lost('the loop changes a subtree')
        for k, p in x.mem.items():
            if k not in s.mem and isinstance(p, Flat):
                if k in sh or k.endswith('N'):
                    # materialised in the body: has to be as it was found
                    if p.alive is not True:
                        raise Lost('the loop changes the tree')
                    y = self.lay
                    if k in sh and not (self.child_ok(x, k, p.cells[y.l][1], 'l') and self.child_ok(x, k, p.cells[y.r][1], 'r')):
                        raise Lost('the loop changes the tree')
                else:
                    raise Lost('the loop creates objects')
        return out

    def child_ok(self, x, k, v, side):
        n = k + side
        return v == Ptr(n) or v == NULL and self.order(x).shape.get(n) == 'null'

    def put(self, s, key, v):
        if key[0] == 'r':
            s.regs[key[1]] = v
        else:
            k, off = key
            o = s.mem[k]
            cells = dict(o.cells)
            cells[off] = (8, v)
            s.mem[k] = o.copy(cells=cells)

    def parts(self, s, name):
        """the items of the subtree at name, which is opaque or just materialised"""
        o = s.mem.get(name)
        if isinstance(o, Tree):
            return [('T', name)]
        if isinstance(o, Flat) and o.tag == 'AL':
            y = self.lay
            out = []
            for off, side in ((y.l, 'l'), (None, None), (y.r, 'r')):
                if off is None:
                    out.append(('N', name))
                    continue
                v = o.cells[off][1]
                if v == NULL:
                    continue
                if v.obj not in s.mem:
                    raise Lost('unknown child')
                out += self.parts(s, v.obj)
            return out
        raise Lost('not a subtree: %s' % name)

    def span(self, s, name):
        it = list(self.order(s).items)
        ps = self.parts(s, name)
        if not ps:
            raise Lost('empty subtree')
        i = it.index(ps[0])
        if it[i:i + len(ps)] != ps:
            raise Lost('the items of a subtree are not together')
        return i, len(ps)

    def rels(self, s, items):
        r = frozenset()
        for x in items:
            r = r | self.order(s).relation(x[1])
        return r

    def down(self, st, b, moves, keys):
        if len(keys) != 1:
            return None
        key = keys[0]
        x0 = moves[0].get(key, (None,))[0]
        if not isinstance(x0, Ptr) or x0.obj is None or any(key not in m for m in moves):
            return None
        name = x0.obj
        if not isinstance(st.mem.get(name), (Tree, Flat)):
            return None
        left, right = FULL - FULL, FULL - FULL
        goes = set()
        for x, m in zip(b, moves):
            v = m[key][1]
            if v == NULL or not isinstance(v, Ptr):
                # the body looked at the child and moved to a null child: treat by its side
                return None
            if v.obj not in (name + 'l', name + 'r'):
                return None
            side = v.obj[-1]
            goes.add(side)
            i, k = self.span(x, name)
            j, c = self.span(x, v.obj)
            it = self.order(x).items
            if side == 'l':
                right = right | self.rels(x, it[j + c:i + k])
            else:
                left = left | self.rels(x, it[i:j])
        G = st.copy()
        i, k = self.span(st, name)
        it = list(self.order(st).items)
        root = st.mem[name]
        nn = isinstance(root, Flat) or root.nn
        # the materialised part of the subtree becomes opaque again
        for t, n in it[i:i + k]:
            del G.mem[n]
        S = fresh('sub#')
        G = repl(G, name, Ptr('#above'))
        G.mem[S] = Tree(Ptr('#above'), L(0), 'any', nn=nn)
        c1, c2 = ('C', S + '<'), ('C', S + '>')
        new = ([c1] if 'r' in goes else []) + [('T', S)] + ([c2] if 'l' in goes else [])
        rel = {n: r for n, r in self.order(st).rel.items() if ('N', n) not in it[i:i + k]}
        rel[c1[1]], rel[c2[1]] = left, right
        G.mem['#order'] = Order(it[:i] + new + it[i + k:], rel, self.order(st).shape)
        G.mem['#above'] = Tree(NULL, L(0), nn=True, locked=True)
        self.put(G, key, Ptr(S))

        def check(G, x, m):
            if set(m) != {key}:
                return 'the loop also changes %r' % (sorted(map(repr, set(m) - {key})),)
            v = m[key][1]
            if not isinstance(v, Ptr) or v.obj not in (S + 'l', S + 'r'):
                return 'the loop does not move to a child'
            side = v.obj[-1]
            if side not in goes:
                return 'the loop moves to the other side later'
            ob = x.mem[v.obj]
            if nn and isinstance(ob, Tree) and not ob.nn:
                return 'the loop may move to an empty subtree'
            i, k = self.span(x, S)
            j, c = self.span(x, v.obj)
            it = self.order(x).items
            if side == 'l':
                ok = self.rels(x, it[j + c:i + k]) <= right
            else:
                ok = self.rels(x, it[i:j]) <= left
            return None if ok else 'the order of the elements passed is not the same in every iteration'
        return G, check

    def up(self, st, b, moves, keys):
        """current node and parent pointer move one level up"""
        if len(keys) != 2:
            return None
        cur = par = None
        for k in keys:
            v = moves[0].get(k, (None,))[0]
            if isinstance(v, Ptr) and isinstance(st.mem.get(v.obj), Ctx):
                par = k
            elif isinstance(v, Ptr) and v.obj is not None:
                cur = k
        if cur is None or par is None or any(set(m) != {cur, par} for m in moves):
            return None
        ctx = moves[0][par][0].obj
        node = moves[0][cur][0].obj
        if st.mem[ctx].child != node:
            return None
        goes = set()
        for x, m in zip(b, moves):
            if m[cur][1] != Ptr(ctx + 'N') or m[par][1] != Ptr(ctx + "'"):
                return None
            o = x.mem[ctx + 'N']
            goes.add('l' if o.cells[self.lay.l][1] == Ptr(node) else 'r')
        G = st.copy()
        Z, up = fresh('sub#'), fresh('ctx#')
        it = list(self.order(st).items)
        lc, rc = ('C', ctx + '<'), ('C', ctx + '>')
        out = []
        for x in it:
            if x == lc:
                out += [('C', up + '<')] + ([('C', Z + '<')] if 'r' in goes else [])
            elif x == rc:
                out += ([('C', Z + '>')] if 'l' in goes else []) + [('C', up + '>')]
            else:
                out.append(x)
        del G.mem[ctx]
        G = repl(G, ctx, Ptr('#above'))
        G.mem['#above'] = Tree(NULL, L(0), nn=True, locked=True)
        G.mem[up] = Ctx(Z)
        G.mem[Z] = Tree(Ptr('#above'), L(0), nn=True, locked=True)
        G.mem['#order'] = Order(out, self.order(st).rel, self.order(st).shape)
        self.put(G, cur, Ptr(Z))
        self.put(G, par, Ptr(up))

        def check(G, x, m):
            if set(m) != {cur, par}:
                return 'the loop also changes %r' % (sorted(map(repr, set(m) - {cur, par})),)
            if m[cur][1] != Ptr(up + 'N') or m[par][1] != Ptr(up + "'"):
                return 'the loop does not move to the parent'
            o = x.mem[up + 'N']
            side = 'l' if o.cells[self.lay.l][1] == Ptr(Z) else 'r'
            return None if side in goes else 'the loop passes parents on the other side later'
        return G, check


class Walk:
    def __init__(self):
        self.items, self.bad, self.seen = [], [], set()
