"""unique_ptr: U01"""
from ..spec import *


def models():
    m = base_models()
    m.update(E_models())
    return m


def val(name):
    return Term(name, (), 'E')


def owner(st, name, pointee):
    """a unique_ptr owning `pointee` (None: empty)"""
    if pointee is None:
        st.mem[name] = Flat('ext', 8, {0: (8, NULL)})
        return NULL
    st.mem[pointee] = Flat('heap', 8, {0: (8, val(pointee))}, tag='new')
    st.mem[name] = Flat('ext', 8, {0: (8, Ptr(pointee))})
    return Ptr(pointee)


def held(o, name):
    return o.st.mem[name].cells.get(0, (8, RAW))[1]


def live(o, obj):
    """the pointee exists with its original value"""
    return o.st.mem[obj].alive is True


def run(ck):
    mod = ir.compile_ir('ptr.cpp')
    M = models()
    t = mod.type_prefix('unique_ptr')
    if not t or t[0]['size'] != 8:
        raise ir.Broken('unique_ptr is not a single pointer')

    def go(name, entry, st, args):
        outs = ck.run('unique_ptr: ' + name, mod, entry, st, args, M)
        outs = ck.returns(outs)
        for o in outs:
            ck.no_stack_elements(o)
        return outs

    def owns(o, name, pointee, what):
        ck.eq(o, held(o, name), NULL if pointee is None else Ptr(pointee), what)
        if pointee is not None:
            if not live(o, pointee):
                ck.fail(o, 'the pointee is deleted while it is owned', 'ub')
            else:
                ck.eq(o, o.st.mem[pointee].cells.get(0, (8, RAW))[1], val(pointee), 'value of the pointee')

    def exactly(o, owned):
        """every pointee that is alive is in owned, and the others are deleted"""
        ck.no_leak(o, set(owned), 'a pointee that is no longer owned is not deleted')
        for p in owned:
            ck.prove(o, live(o, p), 'an owned or released pointee was deleted', 'ub')

    raw = lambda st, n: st.mem.__setitem__(n, Flat('ext', 8, {}))
    st = State()
    raw(st, 'u')
    for o in go('default construction', 'h_default', st, [Ptr('u')]):
        owns(o, 'u', None, 'a default constructed pointer')
        exactly(o, [])
    for x in (None, 'a'):
        sfx = '' if x else ' (empty)'
        own = [x] if x else []
        st = State()
        p = owner(st, 'tmp', x)
        del st.mem['tmp']
        raw(st, 'u')
        for o in go('construction from a pointer' + sfx, 'h_ctor', st, [Ptr('u'), p]):
            owns(o, 'u', x, 'the owned pointer')
            exactly(o, own)
        st = State()
        owner(st, 'o', x)
        raw(st, 'u')
        for o in go('move construction' + sfx, 'h_move', st, [Ptr('u'), Ptr('o')]):
            owns(o, 'u', x, 'the new owner')
            owns(o, 'o', None, 'the source of a move construction')
            exactly(o, own)
        st = State()
        owner(st, 'u', x)
        for o in go('destruction' + sfx, 'h_dtor', st, [Ptr('u')]):
            exactly(o, [])
        for o in go('get' + sfx, 'h_get', st, [Ptr('u')]):
            ck.eq(o, o.val, Ptr(x), 'get()')
            owns(o, 'u', x, 'the owner after get()')
            exactly(o, own)
        for o in go('release' + sfx, 'h_release', st, [Ptr('u')]):
            ck.eq(o, o.val, Ptr(x), 'release()')
            owns(o, 'u', None, 'the owner after release()')
            exactly(o, own)
        for o in go('conversion to bool' + sfx, 'h_bool', st, [Ptr('u')]):
            ck.eq(o, o.val, BInt(x is not None), 'conversion to bool')
            owns(o, 'u', x, 'the owner after a test')
        for o in go('reset to null' + sfx, 'h_reset0', st, [Ptr('u')]):
            owns(o, 'u', None, 'the owner after reset()')
            exactly(o, [])
        for y in (None, 'b'):
            s2 = sfx + ('' if y else ', null argument')
            st2 = State()
            owner(st2, 'u', x)
            q = owner(st2, 'tmp', y)
            del st2.mem['tmp']
            for o in go('reset' + s2, 'h_reset', st2, [Ptr('u'), q]):
                owns(o, 'u', y, 'the owner after reset(p)')
                exactly(o, [y] if y else [])
            st2 = State()
            owner(st2, 'u', x)
            owner(st2, 'o', y)
            for o in go('move assignment' + s2, 'h_massign', st2, [Ptr('u'), Ptr('o')]):
                owns(o, 'u', y, 'the target of a move assignment')
                h = held(o, 'o')
                # the former pointee of the target is deleted, or the source owns it
                if x is not None and isinstance(h, Ptr) and h.obj == x:
                    owns(o, 'o', x, 'the source of a move assignment')
                    exactly(o, [i for i in (x, y) if i])
                else:
                    owns(o, 'o', None, 'the source of a move assignment')
                    exactly(o, [i for i in (y,) if i])
                ck.eq(o, o.val, Ptr('u'), 'result of the assignment')
    st = State()
    owner(st, 'u', 'a')
    for o in go('self move assignment', 'h_massign', st, [Ptr('u'), Ptr('u')]):
        owns(o, 'u', 'a', 'the owner after a self move')
        exactly(o, ['a'])
        ck.eq(o, o.val, Ptr('u'), 'result of the assignment')
    for x in (None, 'a'):
        st = State()
        raw(st, 'u')
        st.mem['o'] = Flat('ext', 8, {0: (8, Ptr(x) if x else NULL)})
        if x:
            st.mem[x] = Flat('heap', 16, {0: (8, val('a')), 8: (8, val('b'))}, tag='new')
        for o in go('construction from an owner of a derived object' + ('' if x else ' (empty)'), 'h_convert', st, [Ptr('u'), Ptr('o')]):
            ck.eq(o, held(o, 'u'), Ptr('a', L(8)) if x else NULL, 'the new owner')
            ck.eq(o, held(o, 'o'), NULL, 'the source of a move construction')
            exactly(o, [x] if x else [])
    # while the pointee that was owned is destroyed, its owner has already been given the new one
    seen = []
    plain = M['_ZN1ED1Ev']

    def watch(eng, st, args, ins):
        if args[0] == Ptr('a'):
            seen.append((st.copy(), st.mem['u'].cells.get(0, (8, RAW))[1]))
        return plain(eng, st, args, ins)
    W = dict(M)
    W['_ZN1ED1Ev'] = W['_ZN1ED2Ev'] = watch
    for entry, args, want in (('h_reset', [Ptr('u'), Ptr('b')], Ptr('b')), ('h_reset0', [Ptr('u')], NULL)):
        st = State()
        owner(st, 'u', 'a')
        owner(st, 'o', 'b')
        del st.mem['o']
        del seen[:]
        for o in ck.returns(ck.run('unique_ptr: what the pointee sees of its owner during ' + entry[2:], mod, entry, st, args, W)):
            for s, v in seen:
                ck.eq(o, v, want, 'the owner while the former pointee is destroyed')
    for fn in ('h_deref', 'h_cderef', 'h_arrow', 'h_carrow'):
        for o in go(fn[2:], fn, st, [Ptr('u')]):
            ck.eq(o, o.val, Ptr('a'), 'the object designated')
            owns(o, 'u', 'a', 'the owner after an access')
    # comparisons: positions in one array, and null
    st = State()
    i, j, n = Lin.sym('i'), Lin.sym('j'), Lin.sym('n')
    st.cons = st.cons.add(i).add(n - 1 - i).add(j).add(n - 1 - j).add((1 << 40) - n)
    st.mem['arr'] = Arr('ext', 'lin', 8, n, {0: (8, ((ZERO, n, Term('arr', (Lin.sym(IDX),), 'E')),))}, True)
    for a, b, sfx in ((Ptr('arr', i * 8), Ptr('arr', j * 8), ''), (NULL, Ptr('arr', j * 8), ' (left null)'), (Ptr('arr', i * 8), NULL, ' (right null)'), (NULL, NULL, ' (both null)')):
        st.mem['u'] = Flat('ro', 8, {0: (8, a)})
        st.mem['o'] = Flat('ro', 8, {0: (8, b)})
        x = ZERO if a == NULL else i + 1
        y = ZERO if b == NULL else j + 1
        for fn, f in (('eq', lambda x, y: eq0(x - y)), ('ne', lambda x, y: cnot(eq0(x - y))), ('lt', lambda x, y: ge(y - x - 1)),
                      ('le', lambda x, y: ge(y - x)), ('gt', lambda x, y: ge(x - y - 1)), ('ge', lambda x, y: ge(x - y))):
            for o in go(fn + sfx, 'h_' + fn, st, [Ptr('u'), Ptr('o')]):
                want = f(o.st.L(x), o.st.L(y))
                c = o.val.cond if isinstance(o.val, BInt) else cnot(eq0(o.val))
                ck.prove(o, cor(cand(c, want), cand(cnot(c), cnot(want))), 'the comparison is not that of the addresses')
    for fn in ('h_make', 'h_makem'):
        st = State()
        raw(st, 'u')
        st.mem['x'] = Flat('ext', 8, {0: (8, val('x'))})
        for o in go('make_unique' + (' from an rvalue' if fn == 'h_makem' else ''), fn, st, [Ptr('u'), Ptr('x')]):
            h = held(o, 'u')
            ob = o.st.mem.get(h.obj) if isinstance(h, Ptr) else None
            if ob is None or ob.kind != 'heap' or ob.alive is not True or ob.tag != 'new':
                ck.fail(o, 'make_unique does not yield an owned new object')
                continue
            ck.eq(o, ob.cells.get(0, (8, RAW))[1], val('x'), 'value of the object made')
            ck.no_leak(o, {h.obj})
            if fn == 'h_make':
                ck.eq(o, o.st.mem['x'].cells.get(0, (8, RAW))[1], val('x'), 'the argument of make_unique')
            else:
                ck.prove(o, o.st.mem['x'].cells.get(0, (8, RAW))[1] is MOVED, 'the argument of make_unique is not moved from', 'val')
    return ck
