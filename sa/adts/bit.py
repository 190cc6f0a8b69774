"""stream flags, modes and states: P01"""
from ..spec import *

OPS = {'and': lambda a, b: a & b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b}
GROUPS = {'adjustfield': ('left', 'right', 'internal'), 'basefield': ('dec', 'oct', 'hex'), 'floatfield': ('scientific', 'fixed')}
ZEROS = ('goodbit',)
W = 32


def table(v, env):
    """the truth table of every bit of v, when no bit depends on another; None otherwise"""
    if isinstance(v, Lin):
        if v.is_const():
            c = v.c % (1 << W)
            return (0, 0, 0, 0) if c == 0 else (1, 1, 1, 1) if c == (1 << W) - 1 else None
        for x, t in env.items():
            if v == Lin.sym(x):
                return t
            if v == -Lin.sym(x) - 1:
                return tuple(1 - b for b in t)
        return None
    if isinstance(v, Term) and v.src in OPS:
        a, b = (table(x, env) for x in v.args)
        return a and b and tuple(OPS[v.src](x, y) for x, y in zip(a, b))
    if isinstance(v, Term) and v.src in ('zext', 'sext', 'trunc'):
        return table(v.args[0], env)
    return None


def run(ck):
    mod = ir.compile_ir('ios.cpp')
    M = base_models()
    env = {'a': (0, 0, 1, 1), 'b': (0, 1, 0, 1)}
    samples = [0, 1, 2, 3, 4, 5, 6, 7, 1 << 8, 1 << 14, 1 << 16, (1 << 16) | 5, 0x7fff, (1 << 31) - 1]

    def go(name, entry, st, args):
        return ck.returns(ck.run(name, mod, entry, st, args, M))

    def num(o, v):
        v = L(int(truth(o.st, v))) if isinstance(v, BInt) else v
        return v.c % (1 << W) if isinstance(v, Lin) and v.is_const() else None

    def at(o, obj):
        return o.st.mem[obj].cells.get(0, (4, RAW))[1]

    def cellst(v):
        st = State()
        st.mem['x'] = Flat('ext', 4, {0: (4, v)})
        return st

    for X in ('flags', 'mode', 'state'):
        for n, f in list(OPS.items()) + [('not', None)]:
            g = (lambda a, b: ~a) if f is None else f
            want = tuple(g(x, y) & 1 for x, y in zip(env['a'], env['b']))
            two = f is not None
            forms = [(n, 'h_%s_%s' % (X, n), lambda a, b: (State(), [a, b] if two else [a]), lambda o: o.val)]
            if two:
                forms.append((n + ' assignment', 'h_%s_%seq' % (X, n), lambda a, b: (cellst(a), [Ptr('x'), b]), lambda o: at(o, 'x')))
            for what, entry, mk, res in forms:
                if entry not in mod.funcs:
                    continue
                nm = '%s: %s' % (X, what)
                st, args = mk(Lin.sym('a'), Lin.sym('b'))
                for s in ('a', 'b'):
                    st.cons = st.cons.add(Lin.sym(s) + (1 << 31)).add((1 << 31) - 1 - Lin.sym(s))
                for o in go(nm, entry, st, args):
                    t = table(res(o), env)
                    if t is None:
                        ck.obl += 1
                        ck.und('%s: whether each bit is the %s of the bits: %r' % (nm, n, res(o)), o.loc)
                    else:
                        ck.prove(o, t == want, 'a bit of the result is not the %s of the bits of the operands' % n)
                    if 'eq' in entry[-2:]:
                        ck.eq(o, o.val, Ptr('x'), 'the object returned')
                for a in samples:
                    for b in samples if two else samples[:1]:
                        st, args = mk(L(a), L(b))
                        for o in go('%s of %#x and %#x' % (nm, a, b), entry, st, args):
                            r = num(o, res(o))
                            if r is None:
                                ck.obl += 1
                                ck.und('%s of given values' % nm, o.loc)
                            else:
                                ck.prove(o, r == g(a, b) % (1 << W), 'the result is %#x instead of %#x' % (r, g(a, b) % (1 << W)))
            if two and 'h_%s_self%s' % (X, n) in mod.funcs:
                for a in samples:
                    for o in go('%s: %s with itself of %#x' % (X, n, a), 'h_%s_self%s' % (X, n), cellst(L(a)), [Ptr('x')]):
                        ck.eq(o, at(o, 'x'), L(g(a, a)), 'the result')
        # the named values
        val = {}
        for e in sorted(mod.funcs):
            if e.startswith('c_%s_' % X):
                for o in go('the value ' + e[2:], e, State(), []):
                    val[e[len('c_%s_' % X):]] = (num(o, o.val), o)
        single = [k for k in val if k not in GROUPS and k not in ZEROS]
        for k in single:
            v, o = val[k]
            ck.cur = '%s: %s' % (X, k)
            ck.prove(o, v is not None and v != 0 and v & (v - 1) == 0, 'the value %r is not one bit' % v)
            for j in single:
                if j < k:
                    ck.prove(o, v is not None and val[j][0] is not None and v & val[j][0] == 0, 'shares a bit with %s' % j)
        for k in ZEROS:
            if k in val:
                ck.cur = '%s: %s' % (X, k)
                ck.eq(val[k][1], val[k][1].val, ZERO, 'the value')
        for k, parts in GROUPS.items():
            if k in val and all(p in val for p in parts):
                w = 0
                for p in parts:
                    w |= val[p][0]
                ck.cur = '%s: %s' % (X, k)
                ck.prove(val[k][1], val[k][0] == w, 'the group is %#x instead of %#x' % (val[k][0], w))
        if X == 'flags':
            normal = val['skipws'][0] | val['dec'][0]
    # a new stream
    for k in ('in', 'out'):
        t = mod.type_prefix('basic_istream' if k == 'in' else 'basic_ostream')
        for buf in ('none', 'some'):
            st = State()
            st.mem['s'] = Flat('ext', t[0]['size'] if t else 512, {})
            st.mem['b'] = Flat('ext', 512, {})
            for o in go('a new stream', 'h_' + k, st, [Ptr('s'), Ptr('b') if buf == 'some' else NULL]):
                for x in go('flags of a new stream', 'h_%sflags' % k, o.st, [Ptr('s')]):
                    ck.eq(x, x.val, L(normal), 'the flags of a new stream')
                if k == 'in':
                    for x in go('base', 'h_inbase', o.st.copy(), [Ptr('s')]):
                        for m in ('dec', 'hex', 'oct'):
                            for y in go('manipulator ' + m, 'h_in' + m, x.st.copy(), [Ptr('s')]):
                                ck.eq(y, y.val, x.val, 'the stream returned')
    return ck
