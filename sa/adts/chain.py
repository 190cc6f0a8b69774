"""linked sequences: walking a chain of nodes symbolically"""
from ..spec import *

BIG = 1 << 40
I = Lin.sym(IDX)


def ext_alloc(eng, st, args, ins):
    n = args[0]
    if not isinstance(n, Lin):
        raise Lost('allocation of %r bytes' % (n,))
    return eng.alloc(st, eng.norm(st, n, 64, False), 'AL')


def ext_dealloc(eng, st, args, ins):
    n = args[1]
    if args[0] == NULL:
        Mem.require(st, eq0(n), 'deallocation of a null pointer with a non-zero count')
        return RAW
    eng.dealloc(st, args[0], 'AL', eng.norm(st, n, 64, False))
    return RAW


def models():
    m = base_models()
    m.update(E_models())
    m['ext_alloc'] = ext_alloc
    m['ext_dealloc'] = ext_dealloc
    return m


class Walk:
    def __init__(self):
        self.vals = []          # segments by position: (lo, hi, value template)
        self.addr = []          # segments by position: (lo, hi, node pointer)
        self.n = ZERO
        self.fam = {}           # family -> number of members visited
        self.one = []           # single nodes visited

    def add(self, cnt, addr, vals):
        """vals: [(lo, hi, template)] relative to the start of the run"""
        self.addr.append((self.n, self.n + cnt, vsubst(addr, {IDX: I - self.n})))
        for lo, hi, v in vals:
            self.vals.append((self.n + lo, self.n + hi, vsubst(v, {IDX: I - self.n})))
        self.n = self.n + cnt


def col_values(eng, st, ob, voff, lo, hi):
    if voff is None:
        return []
    return eng.seg_slice(st, eng.col(ob, voff, 8), lo, hi)


def walk(eng, st, start, noff, end, voff, limit=14):
    """follow the cells at offset noff of the nodes from start until end"""
    w = Walk()
    p = start
    seen = set()
    for _ in range(limit):
        if p is RAW:
            raise Bad('traversal follows an uninitialised pointer')
        if not isinstance(p, Ptr):
            raise Lost('traversal through %r' % (p,))
        p = resolve(st, p)
        if p == end:
            return w
        if p.obj is None:
            raise Bad('traversal runs into a null pointer')
        if p in seen:
            raise Bad('traversal never ends')
        seen.add(p)
        ob = eng.obj(st, p, 'traversal')
        if isinstance(ob, Flat):
            if ob.kind != 'heap':
                raise Bad('traversal reaches something that is not an element')
            v = RAW if voff is None else eng.load(st, p.plus(voff), 8)
            w.one.append(p.obj)
            w.add(ONE, p, [(ZERO, ONE, v)])
            p = eng.load(st, p.plus(noff), 8, 'ptr')
            continue
        if ob.mode != 'fam' or not p.off.is_const():
            raise Lost('traversal of %r' % p)
        eng.alive_at(st, p, ob, 'traversal')
        segs = eng.col(ob, noff + p.off.c, 8)
        lo, hi, t = segs[eng.seg_find(st, segs, p.blk)]
        b = p.blk
        if t == Ptr(p.obj, p.off, I + 1):
            cnt, a, z, nxt, d = hi - b, b, hi, Ptr(p.obj, p.off, hi), 1
        elif t == Ptr(p.obj, p.off, I - 1):
            cnt, a, z, nxt, d = b - lo + 1, lo, b + 1, Ptr(p.obj, p.off, lo - 1), -1
        else:
            cnt, a, z, nxt, d = ONE, b, b + 1, at(t, b), 1
        if ob.alive is not True:
            for x, y, v in eng.seg_slice(st, ob.alive, a, z):
                if v == ZERO and decide(st, ge(x - y)) is not True:
                    raise Bad('traversal of a deallocated node')
        vs = []
        for x, y, v in col_values(eng, st, ob, None if voff is None else voff + p.off.c, a, z):
            if d > 0:
                vs.append((x - b, y - b, vsubst(v, {IDX: I + b})))
            else:
                vs.insert(0, (b + 1 - y, b + 1 - x, vsubst(v, {IDX: b - I})))
        w.fam[p.obj] = w.fam.get(p.obj, ZERO) + cnt
        w.add(cnt, Ptr(p.obj, p.off, b + I if d > 0 else b - I), vs)
        p = nxt
    raise Lost('traversal too irregular')


def alive_count(ob):
    if ob.alive is True:
        return ob.n
    if ob.alive is False:
        return ZERO
    t = ZERO
    for lo, hi, v in ob.alive:
        if v == ONE:
            t = t + (hi - lo)
    return t


class Seq:
    """expected contents: a list of runs (count, value function, node function or None)"""
    def __init__(self, runs):
        self.runs = runs

    def vals(self):
        return [(c, f) for c, f, g in self.runs]

    def addr(self):
        return [(c, g or (lambda i: None)) for c, f, g in self.runs]

    def total(self):
        t = ZERO
        for c, f, g in self.runs:
            t = t + c
        return t

    def rev(self):
        out = []
        for c, f, g in reversed(self.runs):
            out.append((c, (lambda c, f: lambda i: f(c - 1 - i))(c, f), (lambda c, g: lambda i: g(c - 1 - i))(c, g) if g else None))
        return Seq(out)
