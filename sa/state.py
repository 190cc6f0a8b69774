"""Abstract states: registers, memory, path constraints, facts."""
from .lin import Lin, L, ZERO, ONE, Cons, fresh
from .values import *


class Fork(Exception):
    """the transfer function needs the state partitioned on cond"""

    def __init__(self, cond):
        self.cond = cond


class Bad(Exception):
    """the operation is erroneous on every point of the state"""

    def __init__(self, msg):
        self.msg = msg


class Lost(Exception):
    """outside what the domain can express"""

    def __init__(self, msg):
        self.msg = msg


# --------------------------------------------------------------- memory objects
class Flat:
    """an object addressed with constant offsets"""
    __slots__ = ('kind', 'size', 'cells', 'alive', 'tag')

    def __init__(self, kind, size, cells=None, alive=True, tag=None):
        self.kind = kind
        self.size = size
        self.cells = cells or {}
        self.alive = alive
        self.tag = tag

    def copy(self, **kw):
        o = Flat(self.kind, self.size, self.cells, self.alive, self.tag)
        for k, v in kw.items():
            setattr(o, k, v)
        return o

    def subst(self, m):
        ch = None
        for off, (sz, v) in self.cells.items():
            w = vsubst(v, m)
            if w is not v:
                if ch is None:
                    ch = dict(self.cells)
                ch[off] = (sz, w)
        size = self.size.subst(m) if isinstance(self.size, Lin) else self.size
        if ch is None and size is self.size:
            return self
        return self.copy(cells=ch if ch is not None else self.cells, size=size)

    def syms(self, acc):
        for off, (sz, v) in self.cells.items():
            vsyms(v, acc)
        if isinstance(self.size, Lin):
            vsyms(self.size, acc)


class Arr:
    """an indexed object: n cells of `stride` bytes, each with typed columns.
    mode 'lin': one block, the index is off/stride
    mode 'fam': a family of blocks (nodes), the index is the block number
    mode 'chk': a family of blocks of `per` cells, index = per*blk + off/stride"""
    __slots__ = ('kind', 'mode', 'stride', 'n', 'cols', 'alive', 'tag', 'per', 'bsize', 'ends')

    def __init__(self, kind, mode, stride, n, cols=None, alive=True, tag=None, per=None, bsize=None, ends=()):
        self.kind = kind
        self.mode = mode
        self.stride = stride
        self.n = n              # number of cells (lin, chk) or of blocks (fam)
        self.cols = cols or {}   # coff -> (width, segs)
        self.alive = alive       # bool, or segs of 1/0 by block for families
        self.tag = tag
        self.per = per
        self.bsize = bsize
        self.ends = ends         # families: (index, pointer it stands for)

    def copy(self, **kw):
        o = Arr(self.kind, self.mode, self.stride, self.n, self.cols, self.alive, self.tag, self.per, self.bsize, self.ends)
        for k, v in kw.items():
            setattr(o, k, v)
        return o

    def subst(self, m):
        cols = {}
        ch = False
        for c, (w, segs) in self.cols.items():
            s2 = segs_subst(segs, m)
            ch = ch or s2 is not segs
            cols[c] = (w, s2)
        n = self.n.subst(m)
        al = self.alive
        if not isinstance(al, bool):
            al = segs_subst(al, m)
        ends = tuple((i.subst(m), vsubst(p, m)) for i, p in self.ends)
        if not ch and n is self.n and al is self.alive and ends == self.ends:
            return self
        return self.copy(cols=cols, n=n, alive=al, ends=ends)

    def syms(self, acc):
        vsyms(self.n, acc)
        for c, (w, segs) in self.cols.items():
            for lo, hi, v in segs:
                vsyms(lo, acc)
                vsyms(hi, acc)
                vsyms(v, acc)
        if not isinstance(self.alive, bool):
            for lo, hi, v in self.alive:
                vsyms(lo, acc)
                vsyms(hi, acc)
        for i, p in self.ends:
            vsyms(i, acc)
            vsyms(p, acc)
        acc.discard(IDX)


def segs_subst(segs, m):
    out = None
    for i, (lo, hi, v) in enumerate(segs):
        a, b, c = lo.subst(m), hi.subst(m), vsubst(v, m)
        if a is not lo or b is not hi or c is not v:
            if out is None:
                out = list(segs)
            out[i] = (a, b, c)
    return tuple(out) if out is not None else segs


def at(tmpl, i):
    return vsubst(tmpl, {IDX: i})


def anti(u, v, i0):
    """a template t with t(i0) = u and t(i0+1) = v, or None"""
    if type(u) is not type(v):
        return None
    if u == v:
        return u
    t = type(u)
    if t is Lin:
        d = v - u
        if not d.is_const():
            return None
        return u + (Lin.sym(IDX) - i0) * d.c
    if t is Ptr:
        if u.obj != v.obj or (u.blk is None) != (v.blk is None):
            return None
        o = anti(u.off, v.off, i0)
        b = anti(u.blk, v.blk, i0) if u.blk is not None else None
        if o is None or (u.blk is not None and b is None):
            return None
        return Ptr(u.obj, o, b)
    if t is Term:
        if u.src != v.src or len(u.args) != len(v.args) or u.bits != v.bits:
            return None
        a = []
        for x, y in zip(u.args, v.args):
            z = anti(x, y, i0)
            if z is None:
                return None
            a.append(z)
        return Term(u.src, a, u.bits)
    return None


def has_idx(v):
    return IDX in vsyms(v, set())


class State:
    __slots__ = ('frames', 'mem', 'cons', 'facts', 'alls', 'exact', 'elim', 'trail', 'log', 'why', 'scan')

    def __init__(self):
        self.frames = [{}]
        self.mem = {}
        self.cons = Cons()
        self.facts = {}
        self.alls = ()
        self.exact = True
        self.elim = {}
        self.trail = ()
        self.log = ()
        self.why = None
        self.scan = ()

    def copy(self):
        s = State.__new__(State)
        s.frames = self.frames[:-1] + [dict(self.frames[-1])]
        s.mem = dict(self.mem)
        s.cons = self.cons
        s.facts = dict(self.facts)
        s.alls = self.alls
        s.exact = self.exact
        s.elim = dict(self.elim)
        s.trail = self.trail
        s.log = self.log
        s.why = self.why
        s.scan = self.scan
        return s

    @property
    def regs(self):
        return self.frames[-1]

    def approx(self, why):
        self.exact = False
        if self.why is None:
            self.why = why

    def subst(self, m):
        """in place; False when contradictory"""
        self.frames = [{k: vsubst(v, m) for k, v in f.items()} for f in self.frames]
        self.mem = {k: o.subst(m) for k, o in self.mem.items()}
        self.cons = self.cons.subst(m)
        if self.cons.bad:
            return False
        nf = {}
        for key, pol in self.facts.items():
            k2 = ksubst(key, m)
            k2 = canon_key(k2)
            if isinstance(k2, bool):
                if k2 != pol:
                    return False
                continue
            if k2[1] is NEG:
                k2, pol = k2[0], not pol
            else:
                k2 = k2[0]
            if k2 in nf and nf[k2] != pol:
                return False
            nf[k2] = pol
        self.facts = nf
        self.alls = tuple((lo.subst(m), hi.subst(m), ksubst(k, m), p) for lo, hi, k, p in self.alls)
        e2 = {s: e.subst(m) for s, e in self.elim.items()}
        e2.update(m)
        self.elim = e2
        self.trail = tuple(x for x in (csubst(c, m) for c in self.trail) if not isinstance(x, bool))
        self.log = tuple(vsubst_log(x, m) for x in self.log)
        return True

    def L(self, e):
        """an input expression in the terms of this state"""
        return vsubst(L(e) if isinstance(e, (int, str)) else e, self.elim)


def vsubst_log(x, m):
    if isinstance(x, tuple):
        return tuple(vsubst_log(y, m) for y in x)
    if isinstance(x, (Lin, Ptr, Term, BInt, Agg)):
        return vsubst(x, m)
    return x


# ------------------------------------------------------------------ atoms
NEG = Special('NEG')
POS = Special('POS')


def order(v):
    return repr(v)


def canon_key(key):
    """returns True/False when decided by structure, else (key, POS|NEG)"""
    op = key[0]
    if op == 'all':
        return key, POS
    if op.endswith('eq') or op == 'eq':
        a, b = key[1], key[2]
        if a == b:
            return True
        if op == 'eq':
            if isinstance(a, Lin) and isinstance(b, Lin):
                if a.is_const() and b.is_const():
                    return False
        if order(b) < order(a):
            return (op, b, a) + tuple(key[3:]), POS
        return key, POS
    if op in ('slt', 'ult', 'Elt'):
        if key[1] == key[2]:
            return False
    return key, POS


def match(t, v, q):
    """solve template t (with QV) == v; returns Lin for QV, True if no QV involved and equal, or None"""
    if type(t) is not type(v):
        return None
    if isinstance(t, Lin):
        k = t.coef(QV)
        if k == 0:
            return True if t == v else None
        r = t - Lin.sym(QV, k)
        d = (v - r)
        d = d.divides(k) if k > 0 else (-d).divides(-k)
        return d
    if isinstance(t, Ptr):
        if t.obj != v.obj:
            return None
        r = match(t.off, v.off, q)
        if r is None:
            return None
        if t.blk is not None:
            if v.blk is None:
                return None
            r2 = match(t.blk, v.blk, q)
            if r2 is None:
                return None
            if r is True:
                return r2
            if r2 is True:
                return r
            return r if r == r2 else None
        return r
    if isinstance(t, Term):
        if t.src != v.src or len(t.args) != len(v.args):
            return None
        return match_all(t.args, v.args, q)
    if isinstance(t, KeyV):
        if t.key[0] != v.key[0] or len(t.key) != len(v.key):
            return None
        return match_all(t.key[1:], v.key[1:], q)
    return True if t == v else None


def match_all(ts, vs, q):
    r = True
    for a, b in zip(ts, vs):
        x = match(a, b, q)
        if x is None:
            return None
        if x is True:
            continue
        if r is True:
            r = x
        elif r != x:
            return None
    return r


def match_key(t, key):
    if t[0] != key[0] or len(t) != len(key):
        return None
    r = match_all(t[1:], key[1:], QV)
    if r is None and (t[0] == 'eq' or t[0] == 'Eeq'):
        r = match_all((t[2], t[1]), key[1:], QV)
    return r


# ------------------------------------------------------------------ assume
def _const_of(v):
    return v.c if isinstance(v, Lin) and v.is_const() else None


def theory_ok(facts, key, pol):
    """cheap consistency of a new atom with equality facts to constants and orderings"""
    op = key[0]
    if op == 'eq' and pol:
        for t, c in ((key[1], _const_of(key[2])), (key[2], _const_of(key[1]))):
            if c is None:
                continue
            for k, p in facts.items():
                if k[0] == 'eq' and p:
                    for t2, c2 in ((k[1], _const_of(k[2])), (k[2], _const_of(k[1]))):
                        if c2 is not None and t2 == t and c2 != c:
                            return False
    return True


def lookup(st, key):
    """True/False/None, or ('fork', cond)"""
    v = st.facts.get(key)
    if v is not None:
        return v
    if key[0] == 'eq':
        # equality with a constant decided by another known constant
        for a, c in ((key[1], _const_of(key[2])), (key[2], _const_of(key[1]))):
            if c is not None:
                for k, p in st.facts.items():
                    if p and k[0] == 'eq':
                        for t2, c2 in ((k[1], _const_of(k[2])), (k[2], _const_of(k[1]))):
                            if c2 is not None and t2 == a:
                                return c2 == c
    if key[0] == 'all':
        lo, hi, tm = key[1], key[2], key[3]
        v = lookup_all(st, lo, hi, tm)
        if v is not None:
            return v
    for lo, hi, tm, pol in st.alls:
        if len(tm) != len(key) or tm[0] != key[0]:
            continue
        q = match_key(tm, key)
        if q is None:
            continue
        if q is True:
            continue
        if st.cons.entails(q - lo):
            if st.cons.entails(hi - 1 - q):
                return pol
            if st.cons.sat_with(hi - 1 - q) is False:
                continue
            return ('fork', ge(hi - 1 - q))
        if st.cons.sat_with(q - lo) is False:
            continue
        if st.cons.sat_with(q - lo, hi - 1 - q) is False:
            continue
        return ('fork', ge(q - lo))
    return None


def same_key(a, b):
    if a == b:
        return True
    return a[0] == b[0] and a[0] in ('eq', 'Eeq') and len(a) == len(b) == 3 and (a[2], a[1]) == (b[1], b[2])


def lookup_all(st, lo, hi, tm):
    if st.cons.entails(lo - hi):
        return True
    t = ksubst(tm.key, {RV: Lin.sym(QV)})
    for l2, h2, t2, pol in st.alls:
        if pol and same_key(t2, t) and st.cons.entails(lo - l2) and st.cons.entails(h2 - hi):
            return True
    for k, p in st.facts.items():
        if k[0] == 'all' and same_key(k[3].key, tm.key):
            if p and st.cons.entails(lo - k[1]) and st.cons.entails(k[2] - hi):
                return True
            if not p and st.cons.entails(k[1] - lo) and st.cons.entails(hi - k[2]):
                return False
        elif not p and k[0] == t[0]:
            q = match_key(t, k)
            if q is not None and q is not True and st.cons.entails(q - lo) and st.cons.entails(hi - 1 - q):
                return False
    # an instance that is known to fail
    if any(not a[3] and a[2][0] == t[0] for a in st.alls) and st.cons.entails(hi - 1 - lo):
        for inst in (lo, hi - 1):
            k = canon_key(ksubst(tm.key, {RV: inst}))
            if k is False:
                return False
            if k is True:
                continue
            v = lookup(st, k[0])
            if v is False:
                return False
            if isinstance(v, tuple) and inst is lo:
                return v
    # a range split by known sub-ranges
    cover = lo
    for _ in range(6):
        nxt = None
        for l2, h2, t2, pol in st.alls:
            if pol and same_key(t2, t) and st.cons.entails(cover - l2) and st.cons.entails(h2 - cover) and not st.cons.entails(cover - h2):
                nxt = h2
        if nxt is None:
            # a single known instance
            k = canon_key(ksubst(tm.key, {RV: cover}))
            if k is True or (not isinstance(k, bool) and st.facts.get(k[0]) is True):
                nxt = cover + 1
        if nxt is None:
            break
        cover = nxt
        if st.cons.entails(cover - hi):
            return True
    return None


def choose_symbol(e):
    best = None
    for s, k in e.t:
        if abs(k) == 1:
            i = s.rfind('#')
            rank = int(s[i + 1:]) if i >= 0 and s[i + 1:].isdigit() else -1
            if s.startswith('k#'):
                rank += 1 << 40
            if best is None or rank > best[0]:
                best = (rank, s, k)
    return best


def _assume_eq(st, e):
    if not e.t:
        return [st] if e.c == 0 else []
    g = 0
    from math import gcd
    for _, k in e.t:
        g = gcd(g, k)
    if e.c % g:
        return []
    e = e.divides(g) if g > 1 else e
    if st.cons.sat_with(e, -e) is False:
        return []
    b = choose_symbol(e)
    st = st.copy()
    if b is None:
        st.cons = st.cons.add(e).add(-e)
        return [st]
    _, s, k = b
    # k*s + rest == 0
    rest = e - Lin.sym(s, k)
    r = -rest if k == 1 else rest
    if not st.subst({s: r}):
        return []
    if st.cons.feasible() is False:
        return []
    return [st]


def assume(st, c, rec=True):
    if isinstance(c, bool):
        return [st] if c else []
    k = c[0]
    if k == 'ge':
        e = c[1]
        if not e.t:
            return [st] if e.c >= 0 else []
        if st.cons.entails(e):
            if rec:
                st = st.copy()
                st.trail += (c,)
            return [st]
        if st.cons.sat_with(e) is False:
            return []
        s2 = st.copy()
        s2.cons = st.cons.add(e)
        if rec:
            s2.trail += (c,)
        if s2.cons.entails(-e):
            return _assume_eq(s2, e)
        return [s2]
    if k == 'eq':
        e = c[1]
        if st.cons.entails_eq(e):
            if e.t and (st.cons.d.get(e.t) is None):
                pass
            s2 = st
            if rec:
                s2 = st.copy()
                s2.trail += (c,)
            if e.t:
                return _assume_eq(s2, e)
            return [s2]
        s2 = st
        if rec:
            s2 = st.copy()
            s2.trail += (c,)
        return _assume_eq(s2, e)
    if k == 'ne':
        e = c[1]
        if not e.t:
            return [st] if e.c else []
        return assume(st, ('ge', e - 1), rec) + assume(st, ('ge', -e - 1), rec)
    if k == 'atom':
        key, pol = c[1], c[2]
        ck = canon_key(key)
        if isinstance(ck, bool):
            return [st] if ck == pol else []
        if ck[1] is NEG:
            pol = not pol
        key = ck[0]
        v = lookup(st, key)
        if isinstance(v, tuple):
            out = []
            for s2 in assume(st, v[1], False):
                out += assume(s2, ('atom', ksubst(key, s2.elim), pol), rec)
            for s2 in assume(st, cnot(v[1]), False):
                out += assume(s2, ('atom', ksubst(key, s2.elim), pol), rec)
            return out
        if v is not None:
            if v != pol:
                return []
            if rec:
                st = st.copy()
                st.trail += (('atom', key, pol),)
            return [st]
        if key[0] == 'eq' and not eq_feasible(st, key, pol):
            return []
        if not theory_ok(st.facts, key, pol):
            return []
        s2 = st.copy()
        s2.facts[key] = pol
        if rec:
            s2.trail += (('atom', key, pol),)
        return [s2]
    if k == 'and':
        out = []
        for s2 in assume(st, c[1], rec):
            n = csubst(c[2], s2.elim)
            out += assume(s2, n, rec)
        return out
    if k == 'or':
        out = list(assume(st, c[1], rec))
        for s2 in assume(st, cnot(c[1]), rec):
            n = csubst(c[2], s2.elim)
            out += assume(s2, n, rec)
        return out
    if k == 'top':
        s2 = st.copy()
        s2.approx('undetermined condition: ' + str(c[1]))
        return [s2]
    raise Lost('condition ' + repr(c))


def eq_feasible(st, key, pol):
    return True


def decide(st, c):
    """True / False / None"""
    if isinstance(c, bool):
        return c
    k = c[0]
    if k == 'ge':
        if st.cons.entails(c[1]):
            return True
        if st.cons.sat_with(c[1]) is False:
            return False
        return None
    if k == 'eq':
        e = c[1]
        if st.cons.entails_eq(e):
            return True
        if st.cons.sat_with(e, -e) is False:
            return False
        g = 0
        from math import gcd
        for _, q in e.t:
            g = gcd(g, q)
        if g and e.c % g:
            return False
        return None
    if k == 'ne':
        r = decide(st, ('eq', c[1]))
        return None if r is None else (not r)
    if k == 'atom':
        ck = canon_key(c[1])
        if isinstance(ck, bool):
            return ck == c[2]
        v = lookup(st, ck[0])
        if isinstance(v, bool):
            return v == (c[2] if ck[1] is POS else not c[2])
        return None
    if k == 'and':
        a, b = decide(st, c[1]), decide(st, c[2])
        if a is False or b is False:
            return False
        if a and b:
            return True
        return None
    if k == 'or':
        a, b = decide(st, c[1]), decide(st, c[2])
        if a or b:
            return True
        if a is False and b is False:
            return False
        return None
    return None


def end_of(st, p):
    """the (index, target) pairs a node pointer may stand for"""
    if p.blk is None:
        return ()
    o = st.mem.get(p.obj)
    return getattr(o, 'ends', ())


def resolve(st, p, fork=True):
    """a node pointer at an end of its family is the sentinel it stands for"""
    while isinstance(p, Ptr) and p.blk is not None:
        for i, t in end_of(st, p):
            c = eq0(p.blk - i)
            d = decide(st, c)
            if d is None and fork:
                raise Fork(c)
            if d is True:
                p = Ptr(t.obj, t.off + p.off, t.blk)
                break
        else:
            return p
    return p


def peq(st, a, b):
    """condition for two pointers to be equal"""
    a, b = resolve(st, a, False), resolve(st, b, False)
    if a.obj == b.obj and a.blk == b.blk:
        return eq0(a.off - b.off)
    c = False
    if a.obj == b.obj and a.blk is not None and b.blk is not None:
        c = cand(eq0(a.blk - b.blk), eq0(a.off - b.off))

    def views(p):
        out = []
        for i, t in end_of(st, p):
            d = eq0(p.blk - i)
            if decide(st, d) is not False:
                out.append((d, Ptr(t.obj, t.off + p.off, t.blk)))
        return out

    va, vb = views(a), views(b)
    for d, x in va:
        if not (x.obj == a.obj and x.blk is not None):
            c = cor(c, cand(d, peq(st, x, b)))
    if not va:
        for d, x in vb:
            if not (x.obj == b.obj and x.blk is not None):
                c = cor(c, cand(d, peq(st, a, x)))
    else:
        # a itself (not at an end) against the ends of b
        for d, x in vb:
            if x.obj == a.obj and x.blk is not None:
                c = cor(c, cand(d, cand(eq0(a.blk - x.blk), eq0(a.off - x.off))))
    return c


def veq(a, b):
    """the condition under which two abstract values are equal"""
    if a is b:
        return True
    if isinstance(a, Special) or isinstance(b, Special):
        if a is TOP or b is TOP:
            return ('top', 'unknown value')
        return False
    if type(a) is not type(b):
        if isinstance(a, BInt) and isinstance(b, Lin):
            a, b = b, a
        if isinstance(b, BInt) and isinstance(a, Lin) and a.is_const():
            return b.cond if a.c == 1 else (cnot(b.cond) if a.c == 0 else False)
        if isinstance(a, Term) and isinstance(b, Lin) or isinstance(b, Term) and isinstance(a, Lin):
            return ('atom', ('eq', a, b), True)
        return False
    if isinstance(a, Lin):
        return eq0(a - b)
    if isinstance(a, Ptr):
        if a.obj != b.obj:
            return False
        c = eq0(a.off - b.off)
        if (a.blk is None) != (b.blk is None):
            return False
        if a.blk is not None:
            c = cand(eq0(a.blk - b.blk), c)
        return c
    if isinstance(a, Term):
        if a == b:
            return True
        if a.src != b.src or len(a.args) != len(b.args):
            return False
        c = True
        for x, y in zip(a.args, b.args):
            c = cand(c, veq(x, y))
        if c is not True and a.bits == 8:
            c = cor(c, ('atom', ('eq', a, b), True))
        return c
    if isinstance(a, BInt):
        if a.cond == b.cond:
            return True
        return cor(cand(a.cond, b.cond), cand(cnot(a.cond), cnot(b.cond)))
    if isinstance(a, Agg):
        c = True
        for x, y in zip(a.f, b.f):
            c = cand(c, veq(x, y))
        return c
    return a == b
