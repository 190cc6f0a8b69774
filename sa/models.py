"""Models of the functions the repository's code calls but does not define."""
from .lin import Lin, L, ZERO, ONE, fresh
from .values import *
from .state import *
from .absint import Engine, Throw, exc_id, Mem, is_E

noop = lambda eng, st, args, ins: RAW


def ignore(eng, st, args, ins):
    return ZERO


# ---------------------------------------------------------------- allocation
def m_new(eng, st, args, ins):
    n = args[0]
    if not isinstance(n, Lin):
        raise Lost('allocation of %r bytes' % (n,))
    n = eng.norm(st, n, 64, False)
    return eng.alloc(st, n, 'new')


def m_newa(eng, st, args, ins):
    n = args[0]
    if not isinstance(n, Lin):
        raise Lost('allocation of %r bytes' % (n,))
    return eng.alloc(st, eng.norm(st, n, 64, False), 'new[]')


def m_deletea(eng, st, args, ins):
    n = args[1] if len(args) > 1 else None
    eng.dealloc(st, args[0], 'new[]', eng.norm(st, n, 64, False) if isinstance(n, Lin) else None)
    return RAW


def m_delete(eng, st, args, ins):
    eng.dealloc(st, args[0], 'new', None)
    return RAW


def m_delete_sized(eng, st, args, ins):
    n = args[1]
    eng.dealloc(st, args[0], 'new', eng.norm(st, n, 64, False) if isinstance(n, Lin) else None)
    return RAW


def alloc_E(kind, stride):
    def m(eng, st, args, ins):
        n = eng.norm(st, args[1], 64, False)
        return eng.alloc(st, n, kind, stride)
    return m


def dealloc_E(kind, stride):
    def m(eng, st, args, ins):
        n = eng.norm(st, args[2], 64, False)
        p = args[1]
        if p == NULL:
            Mem.require(st, eq0(n), 'deallocation of a null pointer with a non-zero count')
            return RAW
        eng.dealloc(st, p, kind, n * stride)
        return RAW
    return m


# ---------------------------------------------------------------- opaque elements
def E_get(eng, st, p, what, w=8):
    v = eng.load(st, p, w)
    if v is RAW:
        raise Bad('%s an object that is not alive' % what)
    return v


def E_put(eng, st, p, v, w=8):
    eng.store(st, p, w, v)


def E_raw(eng, st, p, w=8):
    k, o, off, idx = eng.locate(st, p, w, 'construction')
    v = eng.load(st, p, w)
    if v is not RAW:
        raise Bad('construction over an object that is still alive')


def E_models(T='1E', w=8, src='E'):
    """models for an opaque class with mangled name T"""
    def dflt(eng, st, args, ins):
        E_raw(eng, st, args[0], w)
        E_put(eng, st, args[0], Term(src + '.default', (), 'E'), w)
        return RAW

    def copy(eng, st, args, ins):
        v = E_get(eng, st, args[1], 'copying from', w)
        E_raw(eng, st, args[0], w)
        E_put(eng, st, args[0], v, w)
        return RAW

    def move(eng, st, args, ins):
        v = E_get(eng, st, args[1], 'moving from', w)
        E_raw(eng, st, args[0], w)
        E_put(eng, st, args[0], v, w)
        E_put(eng, st, args[1], MOVED, w)
        return RAW

    def acopy(eng, st, args, ins):
        v = E_get(eng, st, args[1], 'assigning from', w)
        E_get(eng, st, args[0], 'assigning to', w)
        E_put(eng, st, args[0], v, w)
        return args[0]

    def amove(eng, st, args, ins):
        v = E_get(eng, st, args[1], 'assigning from', w)
        E_get(eng, st, args[0], 'assigning to', w)
        c = ptr_eq(eng, st, args[0], args[1])
        if c:
            E_put(eng, st, args[0], MOVED, w)
        else:
            E_put(eng, st, args[0], v, w)
            E_put(eng, st, args[1], MOVED, w)
        return args[0]

    def dtor(eng, st, args, ins):
        E_get(eng, st, args[0], 'destroying', w)
        E_put(eng, st, args[0], RAW, w)
        return RAW

    def eq(eng, st, args, ins):
        a = E_get(eng, st, args[0], 'comparing', w)
        b = E_get(eng, st, args[1], 'comparing', w)
        if a is MOVED or b is MOVED:
            raise Bad('comparison of a moved-from element')
        return BInt(('atom', ('Eeq', a, b), True) if a != b else True)

    def lt(eng, st, args, ins):
        a = E_get(eng, st, args[0], 'comparing', w)
        b = E_get(eng, st, args[1], 'comparing', w)
        if a is MOVED or b is MOVED:
            raise Bad('comparison of a moved-from element')
        return BInt(('atom', ('Elt', a, b), True) if a != b else False)

    n = len(T) - len(T.lstrip('0123456789'))
    r = {}
    for c in '12':
        r['_ZN%sC%sEv' % (T, c)] = dflt
        r['_ZN%sC%sERKS_' % (T, c)] = copy
        r['_ZN%sC%sEOS_' % (T, c)] = move
        r['_ZN%sD%sEv' % (T, c)] = dtor
    r['_ZN%saSERKS_' % T] = acopy
    r['_ZN%saSEOS_' % T] = amove
    r['_ZeqRK%sS1_' % T] = eq
    r['_ZltRK%sS1_' % T] = lt
    return r


def ptr_eq(eng, st, a, b):
    c = eng.icmp(st, 'eq', a, b, 64).cond
    d = decide(st, c)
    if d is None:
        raise Fork(c)
    return d


# ---------------------------------------------------------------- C library
def as_array(eng, st, p, what):
    o = eng.obj(st, p, what)
    if isinstance(o, Flat):
        o = eng.to_arr(st, p.obj, o, 1)
    if o.stride is None:
        o = o.copy(stride=1)
        st.mem[p.obj] = o
    return o


def byte_range(eng, st, p, n, what):
    """(obj, column segs, lo, hi) of the bytes [p, p+n)"""
    o = as_array(eng, st, p, what)
    if o.stride != 1 or o.mode != 'lin':
        raise Lost('byte operation on an array of %s-byte cells' % o.stride)
    lo = p.off
    Mem.require(st, ge(lo), '%s before the start of %s' % (what, eng.desc(p.obj)))
    Mem.require(st, ge(o.n - lo - n), '%s past the end of %s' % (what, eng.desc(p.obj)))
    return o, eng.col(o, 0, 1), lo, lo + n


def copy_bytes(eng, st, dst, src, n):
    n = eng.norm(st, n, 64, False)
    if decide(st, eq0(n)):
        return
    if decide(st, eq0(n)) is None:
        raise Fork(eq0(n))
    so = eng.obj(st, src, 'read')
    do = eng.obj(st, dst, 'write')
    # constant size structure copy
    if n.is_const() and isinstance(so, Flat) and isinstance(do, Flat) and src.off.is_const() and dst.off.is_const():
        a, b = src.off.c, dst.off.c
        if so.size is not None and (a < 0 or a + n.c > so.size):
            raise Bad('read outside the bounds of ' + eng.desc(src.obj))
        if do.size is not None and (b < 0 or b + n.c > do.size):
            raise Bad('write outside the bounds of ' + eng.desc(dst.obj))
        move = []
        for off, (sz, v) in so.cells.items():
            if off < a + n.c and a < off + sz:
                if off < a or off + sz > a + n.c:
                    raise Lost('copy splits a cell')
                move.append((off - a + b, sz, v))
                if is_E(v):
                    raise Lost('bitwise copy of an opaque element')
        cells = {o: c for o, c in do.cells.items() if o + c[0] <= b or o >= b + n.c}
        for off, sz, v in move:
            cells[off] = (sz, v)
        st.mem[dst.obj] = do.copy(cells=cells)
        return
    o, segs, lo, hi = byte_range(eng, st, src, n, 'read')
    part = eng.seg_slice(st, segs, lo, hi)
    o2, segs2, lo2, hi2 = byte_range(eng, st, dst, n, 'write')
    if eng.frozen and eng.frozen(dst.obj):
        raise Bad('a read-only operation writes to %s' % eng.desc(dst.obj))
    if o2.kind == 'ro' or o2.tag == 'const':
        raise Bad('write to constant storage')
    if src.obj == dst.obj:
        segs2 = eng.col(o2, 0, 1)
    sh = lo2 - lo
    new = [(a + sh, b + sh, vsubst(v, {IDX: Lin.sym(IDX) - sh})) for a, b, v in part]
    segs2 = eng.seg_put(st, segs2, lo2, hi2, new)
    cols = dict(o2.cols)
    cols[0] = (1, segs2)
    st.mem[dst.obj] = o2.copy(cols=cols)


def m_memcpy(eng, st, args, ins):
    if RAW in args[:3]:
        raise Bad('an uninitialised value is used to copy memory')
    copy_bytes(eng, st, args[0], args[1], args[2])
    return args[0]


def m_memcpy_disjoint(eng, st, args, ins):
    """memcpy: the regions must not overlap (equal pointers, as a structure
    assigned to itself compiles to, are let pass)"""
    if RAW in args[:3]:
        raise Bad('an uninitialised value is used to copy memory')
    dst, src = args[0], args[1]
    if isinstance(dst, Ptr) and isinstance(src, Ptr) and dst.obj is not None and dst.obj == src.obj:
        n = eng.norm(st, args[2], 64, False)
        d = dst.off - src.off
        for c in (eq0(n), eq0(d), ge(d - n), ge(ZERO - d - n)):
            x = decide(st, c)
            if x is None:
                raise Fork(c)
            if x:
                break
        else:
            raise Bad('memory is copied between overlapping parts of %s by a function that does not allow it' % eng.desc(dst.obj))
    return m_memcpy(eng, st, args, ins)


def m_memset(eng, st, args, ins):
    v, n = args[1], eng.norm(st, args[2], 64, False)
    d = decide(st, eq0(n))
    if d:
        return args[0]
    if d is None:
        raise Fork(eq0(n))
    if eng.frozen and isinstance(args[0], Ptr) and eng.frozen(args[0].obj):
        raise Bad('a read-only operation writes to %s' % eng.desc(args[0].obj))
    o = eng.obj(st, args[0], 'write')
    p = args[0]
    if isinstance(v, Lin):
        v = eng.norm(st, v, 8, True)
    if isinstance(o, Flat) and n.is_const() and p.off.is_const():
        b = p.off.c
        if o.size is not None and (b < 0 or b + n.c > o.size):
            raise Bad('write outside the bounds of ' + eng.desc(p.obj))
        cells = {k: c for k, c in o.cells.items() if k + c[0] <= b or k >= b + n.c}
        for i in range(n.c):
            cells[b + i] = (1, v)
        st.mem[p.obj] = o.copy(cells=cells)
        return p
    o, segs, lo, hi = byte_range(eng, st, p, n, 'write')
    segs = eng.seg_put(st, segs, lo, hi, [(lo, hi, v)])
    cols = dict(o.cols)
    cols[0] = (1, segs)
    st.mem[p.obj] = o.copy(cols=cols)
    return p


def fork_eq(st, a, b):
    c = veq(a, b)
    d = decide(st, c)
    if d is None:
        raise Fork(c)
    return d


def scan(eng, st, p, n, value, what):
    """first index in [p, p+n) (n None: unbounded) whose byte equals value; -> Lin or None"""
    o = as_array(eng, st, p, what)
    if o.stride != 1:
        raise Lost('byte operation on an array of %s-byte cells' % o.stride)
    segs = eng.col(o, 0, 1)
    pos = p.off
    Mem.require(st, ge(pos), '%s before the start of %s' % (what, eng.desc(p.obj)))
    end = None if n is None else pos + n
    while True:
        if end is not None:
            d = decide(st, ge(pos - end))
            if d is None:
                raise Fork(ge(pos - end))
            if d:
                return None
        if decide(st, ge(pos - o.n)):
            raise Bad('%s past the end of %s' % (what, eng.desc(p.obj)))
        if decide(st, ge(pos - o.n)) is None:
            raise Fork(ge(pos - o.n))
        j = eng.seg_find(st, segs, pos)
        lo, hi, v = segs[j]
        if not has_idx(v):
            if v is RAW:
                raise Bad('%s of uninitialised storage' % what)
            if v is TOP:
                raise Lost('scan of unknown bytes')
            if fork_eq(st, v, value):
                return pos
            pos = hi
            continue
        lim = hi
        if end is not None:
            d = decide(st, ge(end - hi))
            if d is None:
                raise Fork(ge(end - hi))
            if not d:
                lim = end
        key = ('eq', at(v, Lin.sym(RV)), value)
        ak = ('all', pos, lim, KeyV(('ne_' + key[0],) + key[1:]))
        # known for the whole range?
        t = ('eq', at(v, Lin.sym(QV)), value)
        hit = None
        for l2, h2, t2, pol in st.alls:
            if not pol and (t2 == t or (t2[0] == 'eq' and (t2[2], t2[1]) == (t[1], t[2]))) \
                    and st.cons.entails(pos - l2) and st.cons.entails(h2 - lim):
                hit = True
        if hit:
            pos = lim
            continue
        # partition: found at a first index q, or absent
        raise ScanFork(pos, lim, t)


class ScanFork(Exception):
    def __init__(self, lo, hi, t):
        self.lo = lo
        self.hi = hi
        self.t = t


def scan_states(eng, st, p, n, value, what):
    """-> list of (state, index or None)"""
    todo = [st]
    out = []
    while todo:
        s = todo.pop()
        try:
            c = s.copy()
            r = scan(eng, c, sub(p, c), None if n is None else sub(n, c), sub(value, c), what)
            out.append((c, r))
        except ScanFork as f:
            # absent
            a = s.copy()
            a.alls += ((f.lo, f.hi, f.t, False),)
            todo.append(a)
            # found at q
            q = Lin.sym(fresh('i'))
            b = s.copy()
            b.cons = b.cons.add(q - f.lo).add(f.hi - 1 - q)
            if b.cons.feasible() is not False:
                b.alls += ((f.lo, q, f.t, False),)
                key = ksubst(f.t, {QV: q})
                for b2 in assume(b, ('atom', key, True), False):
                    out.append((b2, q))
        except Fork as f:
            x = assume(s, f.cond) + assume(s, cnot(f.cond))
            todo += x
        except Bad as x:
            out.append((s, 'bad:' + x.msg))
        except Lost as x:
            out.append((s, 'lost:' + x.msg))
    return out


def sub(v, st):
    return vsubst(v, st.elim)


def m_strlen(eng, st, args, ins):
    r = []
    p = args[0]
    for s, q in scan_states(eng, st, p, None, ZERO, 'read'):
        if isinstance(q, str):
            r.append((q.split(':')[0], s, q.split(':', 1)[1]))
            continue
        r.append(('ret', s, q - sub(p, s).off))
    return r


def m_memchr(eng, st, args, ins):
    r = []
    p, c, n = args[0], args[1], eng.norm(st, args[2], 64, False)
    if isinstance(c, Term) and c.src in ('zext', 'sext'):
        c = c.args[0]
    elif isinstance(c, Lin):
        c = eng.norm(st, c, 8, True)
    if decide(st, eq0(n)):
        return NULL
    if decide(st, eq0(n)) is None:
        raise Fork(eq0(n))
    for s, q in scan_states(eng, st, p, n, c, 'read'):
        if isinstance(q, str):
            r.append((q.split(':')[0], s, q.split(':', 1)[1]))
            continue
        r.append(('ret', s, NULL if q is None else Ptr(p.obj, q, sub(p, s).blk)))
    return r


def bytes_at(eng, st, p, n, what):
    """the template of the bytes [p,p+n), which must lie in one segment"""
    o, segs, lo, hi = byte_range(eng, st, p, n, what)
    part = [x for x in eng.seg_slice(st, segs, lo, hi) if not st.cons.entails(x[0] - x[1])]
    if any(x[2] is RAW for x in part):
        raise Bad('%s of uninitialised storage' % what)
    return part, lo


def cmp_states(eng, st, a, b, n):
    """compare the bytes [a,a+n) and [b,b+n): -> [(state, None)] equal, [(state, j, x, y)] first difference at j"""
    todo = [(st, ZERO)]
    out = []
    while todo:
        s, cur = todo.pop()
        s = s.copy()
        try:
            cur = sub(cur, s)
            pa, pb, nn = sub(a, s), sub(b, s), sub(n, s)
            d = decide(s, ge(cur - nn))
            if d is None:
                raise Fork(ge(cur - nn))
            if d:
                out.append((s, None, None, None))
                continue
            oa, sa, la, _ = byte_range(eng, s, pa, nn, 'read')
            ob, sb, lb, _ = byte_range(eng, s, pb, nn, 'read')
            ja, jb = eng.seg_find(s, sa, la + cur), eng.seg_find(s, sb, lb + cur)
            va = vsubst(sa[ja][2], {IDX: Lin.sym(QV) + la})
            vb = vsubst(sb[jb][2], {IDX: Lin.sym(QV) + lb})
            if va is RAW or vb is RAW:
                raise Bad('comparison of uninitialised storage')
            if isinstance(va, Special) or isinstance(vb, Special):
                raise Lost('comparison of unknown bytes')
            lim = nn
            for h in (sa[ja][1] - la, sb[jb][1] - lb):
                d = decide(s, ge(h - lim))
                if d is None:
                    raise Fork(ge(h - lim))
                if not d:
                    lim = h
            if va == vb:
                todo.append((s, lim))
                continue
            key = ('eq', va, vb)
            if order(vb) < order(va):
                key = ('eq', vb, va)
            # equal throughout
            ak = ('all', cur, lim, KeyV(ksubst(key, {QV: Lin.sym(RV)})))
            d = lookup_all(s, cur, lim, ak[3])
            if d is not False:
                e = s.copy()
                if d is not True:
                    e.alls += ((cur, lim, key, True),)
                ok = True
                for k, p in e.facts.items():
                    if not p and k[0] == 'eq':
                        q = match_key(key, k)
                        if q not in (None, True) and e.cons.entails(q - cur) and e.cons.entails(lim - 1 - q):
                            ok = False
                if ok:
                    todo.append((e, lim))
            if d is not True:
                q = Lin.sym(fresh('i'))
                f = s.copy()
                f.cons = f.cons.add(q - cur).add(lim - 1 - q)
                if f.cons.feasible() is not False:
                    f.alls += ((cur, q, key, True),)
                    for f2 in assume(f, ('atom', ksubst(key, {QV: q}), False), False):
                        qq = sub(q, f2)
                        out.append((f2, qq, vsubst(sub(va, f2), {QV: qq}), vsubst(sub(vb, f2), {QV: qq})))
        except Fork as x:
            for s2 in assume(s, x.cond, False) + assume(s, cnot(x.cond), False):
                todo.append((s2, sub(cur, s2)))
        except Bad as x:
            out.append((s, 'bad', x.msg, None))
        except Lost as x:
            out.append((s, 'lost', x.msg, None))
    return out


def m_memcmp(eng, st, args, ins):
    a, b, n = args[0], args[1], eng.norm(st, args[2], 64, False)
    d = decide(st, eq0(n))
    if d is None:
        raise Fork(eq0(n))
    if d:
        return ZERO
    r = []
    for s, q, x, y in cmp_states(eng, st, a, b, n):
        if q is None:
            r.append(('ret', s, ZERO))
        elif q in ('bad', 'lost'):
            r.append((q, s, x))
        else:
            for v, pol in ((-1, True), (1, False)):
                for s2 in assume(s, ('atom', ('ult', x, y), pol), False):
                    r.append(('ret', s2, L(v)))
    return r


def m_throw(eng, st, args, ins):
    g = args[1]
    ty = g.obj if isinstance(g, Ptr) else '?'
    raise Throw(ty)


def caught(st):
    c = st.frames[0].get('caught', '')
    return c.split('|') if c else []


def set_caught(st, l):
    st.frames = [dict(st.frames[0], caught='|'.join(l))] + st.frames[1:]


def m_begin_catch(eng, st, args, ins):
    e = args[0]
    if not isinstance(e, Term) or e.src != 'exc':
        raise Lost('handler of an unknown exception')
    set_caught(st, caught(st) + [str(e.bits)])
    return e


def m_end_catch(eng, st, args, ins):
    l = caught(st)
    if not l:
        raise Lost('end of a handler that was not entered')
    set_caught(st, l[:-1])
    return RAW


def m_rethrow(eng, st, args, ins):
    l = caught(st)
    if not l:
        raise Bad('an exception is thrown again where none is being handled: the program is terminated')
    raise Throw(l[-1])


def m_typeid_for(eng, st, args, ins):
    g = args[0]
    ty = g.obj if isinstance(g, Ptr) else '?'
    if ty != st.regs.get('exct') and 'forced_unwind' not in ty:
        raise Lost('handler of %s' % ty)        # may be a base class of what was thrown
    return L(exc_id(ty))


def m_terminate(eng, st, args, ins):
    raise Bad('an exception leaves a function that must not throw: the program is terminated')


def m_exc_alloc(eng, st, args, ins):
    return eng.alloc(st, args[0], 'exc')


def overflow(op, signed):
    def m(eng, st, args, ins):
        bits = eng.bits(ins['ty']) if ins.get('ty') in ('i8', 'i16', 'i32', 'i64') else 64
        a, b = (eng.norm(st, x, bits, signed) for x in args[:2])
        if not isinstance(a, Lin) or not isinstance(b, Lin):
            raise Lost('overflow check of unknown values')
        if op == 'mul':
            if a.is_const():
                a, b = b, a
            if not b.is_const():
                raise Lost('overflow check of a product')
            r = a * b.c
        else:
            r = a + b if op == 'add' else a - b
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
        return Agg([r, BInt(cor(ge(lo - 1 - r), ge(r - hi - 1)))])
    return m


def m_dynamic_cast(eng, st, args, ins):
    """exact dynamic type only: there is no deeper hierarchy"""
    p, dst = args[0], args[2]
    if p == NULL:
        return NULL
    vp = eng.load(st, p, 8, 'ptr')
    if not isinstance(vp, Ptr) or not vp.obj or not vp.obj.startswith('@_ZTV') or not isinstance(dst, Ptr):
        raise Lost('dynamic_cast of %r' % (vp,))
    return p if dst.obj[5:] == vp.obj[5:] else NULL


def base_models():
    m = {}
    m['_Znwm'] = m_new
    m['_Znam'] = m_newa
    m['_ZdlPv'] = m_delete
    m['_ZdlPvm'] = m_delete_sized
    m['_ZdaPv'] = m['_ZdaPvm'] = m_deletea
    m['strlen'] = m_strlen
    m['memchr'] = m_memchr
    m['memcmp'] = m_memcmp
    m['bcmp'] = m_memcmp
    m['memcpy'] = m_memcpy_disjoint
    m['memmove'] = m_memcpy
    m['memset'] = m_memset
    m['__cxa_throw'] = m_throw
    m['__dynamic_cast'] = m_dynamic_cast
    m['__cxa_allocate_exception'] = m_exc_alloc
    m['__cxa_free_exception'] = ignore
    m['__cxa_begin_catch'] = m_begin_catch
    m['__cxa_end_catch'] = m_end_catch
    m['__cxa_rethrow'] = m_rethrow
    m['__clang_call_terminate'] = m['_ZSt9terminatev'] = m_terminate
    def thrower(t):
        def f(eng, st, args, ins):
            raise Throw(t)
        return f
    m['_ZSt16__throw_bad_castv'] = thrower('@_ZTISt8bad_cast')
    m['_ZSt17__throw_bad_allocv'] = thrower('bad_alloc')
    m['_ZSt28__throw_bad_array_new_lengthv'] = thrower('bad_array_new_length')
    m['_ZSt20__throw_length_errorPKc'] = thrower('length_error')
    m['_ZSt24__throw_out_of_range_fmtPKcz'] = thrower('out_of_range')
    m['_ZSt20__throw_out_of_rangePKc'] = thrower('out_of_range')
    m['_ZSt19__throw_ios_failurePKc'] = thrower('ios_failure')
    for n in ('_ZNSt12out_of_rangeC1EPKc', '_ZNSt12out_of_rangeC2EPKc', '_ZNSt12out_of_rangeD1Ev'):
        m[n] = ignore
    for op in ('add', 'sub', 'mul'):
        for g, sg in (('u', False), ('s', True)):
            m['llvm.%s%s.with.overflow.i64' % (g, op)] = overflow(op, sg)
    pre = [('llvm.eh.typeid.for', m_typeid_for), ('llvm.memcpy', m_memcpy_disjoint), ('llvm.memmove', m_memcpy), ('llvm.memset', m_memset),
           ('llvm.lifetime', ignore), ('llvm.assume', ignore), ('llvm.dbg', ignore),
           ('llvm.experimental.noalias', ignore), ('llvm.expect', lambda e, s, a, i: a[0]),
           ('llvm.is.constant', lambda e, s, a, i: BInt(False)),
           ('llvm.stacksave', ignore), ('llvm.stackrestore', ignore), ('llvm.invariant', ignore),
           ('_ZNSt12out_of_range', ignore), ('_ZNSt11logic_error', ignore), ('_ZNSt13runtime_error', ignore),
           ('_ZNSt12length_error', ignore), ('_ZNSt9exception', ignore)]
    m['*prefix'] = pre
    return m
