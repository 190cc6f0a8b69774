"""output to the standard streams: O01"""
from .chain import *
from .str import Str, ch, chars, cstr
from ..models import copy_bytes

KIND = {'i': 'int', 'j': 'uint', 'l': 'long', 'm': 'ulong', 's': 'short', 't': 'ushort', 'b': 'bool', 'd': 'double', 'x': 'llong', 'y': 'ullong', 'PKv': 'ptr'}

WIDTH = {'int': (32, True), 'uint': (32, False), 'long': (64, True), 'ulong': (64, False), 'llong': (64, True), 'ullong': (64, False), 'short': (16, True), 'ushort': (16, False)}


def std_name(p):
    if isinstance(p, Ptr) and p.off == ZERO and p.obj and p.obj.startswith('@_ZSt'):
        return p.obj[6:]
    raise Lost('output through %r' % (p,))


def text(eng, st, stream, p, n):
    n = eng.norm(st, n, 64, False)
    if decide(st, eq0(n)):
        return
    ob = eng.obj(st, p, 'output')
    if isinstance(ob, Arr) and ob.alive is not True or isinstance(ob, Flat) and not ob.alive:
        raise Bad('output of released storage')
    size = ob.n if isinstance(ob, Arr) else L(ob.size) if ob.size is not None else None
    if size is not None:
        Mem.require(st, ge(size - p.off - n), 'output beyond the end of %s' % eng.desc(p.obj))
    Mem.require(st, ge(p.off), 'output before the start of %s' % eng.desc(p.obj))
    k = fresh('@snap')
    st.mem[k] = ob.copy()
    st.mem[k].kind = 'ro'
    st.log += (('text', stream, k, p.off, n),)


def out_models():
    m = models()
    pre = []

    def value(kind):
        def f(eng, st, args, ins):
            v = args[1]
            if v is RAW:
                raise Bad('an uninitialised value is written')
            if kind in WIDTH and not isinstance(v, Ptr):
                v = eng.norm(st, v, *WIDTH[kind])
            st.log += (('value', std_name(args[0]), kind, v),)
            return args[0]
        return f
    for c, k in KIND.items():
        m['_ZNSolsE' + c] = value(k)
        m['_ZNSo9_M_insertI%sEERSoT_' % c] = value(k)

    def insert(eng, st, args, ins):
        text(eng, st, std_name(args[0]), args[1], args[2])
        return args[0]
    m['_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l'] = insert
    m['_ZNSo5writeEPKcl'] = insert

    def cstring(eng, st, args, ins):
        from ..models import m_strlen
        n = m_strlen(eng, st, [args[1]], ins)
        if isinstance(n, list):
            r = []
            for q, s, x in n:
                if q == 'ret':
                    text(eng, s, std_name(args[0]), args[1], x)
                    x = args[0]
                r.append((q, s, x))
            return r
        text(eng, st, std_name(args[0]), args[1], n)
        return args[0]
    m['_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc'] = cstring

    def char(eng, st, args, ins):
        if args[1] is RAW:
            raise Bad('an uninitialised value is written')
        st.log += (('char', std_name(args[0]), args[1]),)
        return args[0]
    m['_ZNSo3putEc'] = m['_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c'] = char

    def manip(eng, st, args, ins):
        f = args[1]
        if not isinstance(f, Fn):
            raise Lost('manipulator %r' % (f,))
        st.log += (('manip', std_name(args[0]), f.name),)
        return args[0]
    for n in ('_ZNSolsEPFRSoS_E', '_ZNSolsEPFRSt8ios_baseS0_E', '_ZNSolsEPFRSt9basic_iosIcSt11char_traitsIcEES3_E'):
        m[n] = manip

    def direct(eng, st, args, ins):
        name = eng.callee
        st.log += (('manip', std_name(args[0]), name),)
        return args[0]
    pre.append(('_ZSt4endl', direct))
    pre.append(('_ZSt5flush', direct))

    def user(name):
        def f(eng, st, args, ins):
            st.log += (('user', name) + tuple(args),)
            return Ptr('elsewhere') if name == 'mos' else args[0] if args else RAW
        return f
    for n in ('mos', 'mios', 'mbase', 'sync'):
        m['ext_' + n] = user(n)

    def m_printf(eng, st, args, ins):
        k = Lin.sym('printed%d' % len(st.log))
        st.cons = st.cons.add(k + (1 << 31)).add((1 << 31) - 1 - k)
        st.log += (('printf',) + tuple(args),)
        return k
    m['printf'] = m_printf

    def m_snprintf(eng, st, args, ins):
        buf, size, rest = args[0], eng.norm(st, args[1], 64, False), tuple(args[2:])
        n = None
        for e in st.log:
            if e[0] == 'format' and e[1] == rest:
                n = e[2]
        if n is None:
            n = Lin.sym('formatted.len')
            st.cons = st.cons.add(n + 1).add((1 << 30) - n)     # -1: an encoding error
            st.log += (('format', rest, n),)
        n = st.L(n)
        d = decide(st, ge(n))
        if d is None:
            raise Fork(ge(n))
        if not d:
            return n
        d = decide(st, eq0(size))
        if d is None:
            raise Fork(eq0(size))
        if d:
            return n
        fits = ge(size - n - 1)
        d = decide(st, fits)
        if d is None:
            raise Fork(fits)
        src = fresh('@fmt')
        w = n if d else size - 1
        st.mem[src] = Arr('ro', 'lin', 1, w + 1, {0: (1, ((ZERO, w, ch('formatted', I)), (w, w + 1, ZERO)))}, True)
        copy_bytes(eng, st, buf, Ptr(src), w + 1)
        return n
    m['snprintf'] = m_snprintf
    m['*prefix'] = pre + m['*prefix']
    return m


class Out:
    def __init__(self, ck):
        self.ck = ck
        self.mod = ir.compile_ir('out.cpp', inline=False)
        self.M = out_models()
        self.S = Str(self.mod, layout_roles=[('m_size', 'h_stsize'), ('m_capacity', 'h_stcapacity'), ('m_p', 'h_stdata')])
        t = max(self.mod.type_prefix('basic_ostream'), key=lambda t: t['size'])
        self.ossize = t['size']
        self.streams = {}
        for n in ('cout', 'cerr', 'clog'):
            self.streams[n] = self.address('h_' + n)
        if len(set(self.streams.values())) != 3:
            ck.cur = 'stream objects'
            ck.fail(Outcome('ret', State(), None, 'iostream.hpp'), 'cout, cerr and clog are not three different objects')

    def address(self, entry):
        outs = [o.val for o in Engine(self.mod, self.M).run(entry, State(), []) if o.kind == 'ret']
        if len(outs) != 1 or not isinstance(outs[0], Ptr):
            raise ir.Broken('%s does not designate a stream' % entry)
        return outs[0]

    def each(self):
        """every stream: name of the standard stream it stands for, its address"""
        for n, p in self.streams.items():
            yield n, n, p, State()
        st = State()
        st.mem['os'] = Flat('ext', self.ossize, {i: (8, Term('os.%d' % i, (), 64)) for i in range(0, self.ossize, 8)})
        yield 'another stream', None, Ptr('os'), st

    def go(self, name, entry, st, args):
        return self.ck.returns(self.ck.run(name, self.mod, entry, st, args, self.M))

    # -------------------------------------------------- what was written
    def written(self, o, std, expected, what):
        """expected: list of ('value', kind, v) | ('text', [(count, f)]) | ('manip', prefix), all to std"""
        ck = self.ck
        log = [e for e in o.st.log if e[0] != 'format']
        if self.ce and log:
            ck.fail(o, '%s: something is written although nothing can be in a constant evaluation' % what)
            return
        if std is None or self.ce:
            ck.prove(o, not log, '%s: something is written to %s' % (what, log[0][1] if log else ''))
            return
        for e in log:
            if e[0] == 'printf' or e[1] != std:
                ck.fail(o, '%s: written to %s' % (what, 'standard output' if e[0] == 'printf' else e[1]))
                return
        todo = list(log)
        for x in expected:
            if x[0] == 'text':
                pos = ZERO
                total = ZERO
                for c, f in x[1]:
                    total = total + c
                while todo and todo[0][0] in ('text', 'char'):
                    e = todo.pop(0)
                    if e[0] == 'char':
                        self.piece(o, x[1], pos, [(ONE, lambda i, v=e[2]: v)], None, what)
                        pos = pos + 1
                    else:
                        self.piece(o, x[1], pos, None, e, what)
                        pos = pos + o.st.L(e[4])
                ck.eq(o, pos, o.st.L(total), '%s: number of characters written' % what)
                continue
            if not todo:
                ck.fail(o, '%s: nothing is written' % what)
                return
            e = todo.pop(0)
            if e[0] == 'text' and x[0] == 'value' and x[1] == 'char' and o.st.L(e[4]) == ONE:
                self.piece(o, [(ONE, lambda i: x[2])], ZERO, None, e, what)
                continue
            if e[0] == 'char' and x[0] == 'value' and x[1] == 'char':
                ck.eq(o, e[2], x[2], '%s: the character' % what)
                continue
            if e[0] != x[0]:
                ck.fail(o, '%s: a %s is written instead of a %s' % (what, e[0], x[0]))
                return
            if e[0] == 'value':
                if e[2] != x[1] and not {e[2], x[1]} <= {'int', 'long', 'llong', 'short'} and not {e[2], x[1]} <= {'uint', 'ulong', 'ullong', 'ushort'}:
                    ck.fail(o, '%s: written as %s instead of %s' % (what, e[2], x[1]))
                    return
                ck.eq(o, e[3], vsubst(x[2], o.st.elim), '%s: the value written' % what)
            elif e[0] == 'manip':
                ck.prove(o, e[2].startswith(x[1]), '%s: manipulator %s instead of %s' % (what, e[2], x[1]))
        ck.prove(o, not todo, '%s: more is written than once' % what)

    def piece(self, o, exp, pos, have, e, what):
        """the characters of one event are exp[pos..)"""
        ck = self.ck
        if e is not None:
            segs = ck.cells(o, e[2], 0, 1)
            off, n = o.st.L(e[3]), o.st.L(e[4])
            start = ZERO
            want = []
            for c, f in exp:
                c = o.st.L(c)
                want.append((start, start + c, f))
                start = start + c

            def f(i):
                return None
            # one run is the common case
            if len(want) == 1 or pos == ZERO:
                lo, hi, g = want[0]
                ck.prove(o, ge(hi - pos - n), '%s: more characters are written than there are' % what)
                ck.seq(o, segs, off, [(n, lambda i: g(i + pos))], '%s: the characters written' % what)
            else:
                raise Lost('several runs')
        else:
            (c, g), = exp
            ck.eq(o, have[0][1](ZERO), g(pos), '%s: the character written' % what)


def manipulators(X):
    """a manipulator of the user's is applied once, to the stream, and writes nothing itself"""
    ck = X.ck
    for sname, std, p, st0 in X.each():
        for n, arg, res in (('mos', None, 'elsewhere'), ('mios', 'h_asios', None), ('mbase', 'h_asbase', None)):
            at_ = p
            if arg:
                at_ = [o.val for o in Engine(X.mod, X.M).run(arg, st0.copy(), [p]) if o.kind == 'ret'][0]
            for o in X.go("a manipulator of the user's (%s) to %s" % (n, sname), 'h_' + n, st0.copy(), [p]):
                log = o.st.log
                ck.prove(o, log == (('user', n, at_),), 'manipulator: %r instead of one call on the stream' % (log,))
                ck.eq(o, o.val, Ptr(res) if res else p, 'the result')


def flushing(X):
    """flush asks the buffer once; a failure marks the stream bad"""
    ck = X.ck
    B = {n: [o.val.c for o in Engine(X.mod, X.M).run('h_b_' + n, State(), []) if o.kind == 'ret'][0] for n in ('bad', 'eof', 'fail')}
    fb = max(t['size'] for t in X.mod.type_prefix('struct.FB') or X.mod.type_prefix('FB'))
    what = ('works', 'fails', 'throws')
    for r in (0, 1, 2, None):
        st = State()
        st.mem['fb'] = Flat('ext', fb, {})
        st.mem['os'] = Flat('ext', X.ossize, {})
        name = 'flush of a buffer that ' + what[r] if r is not None else 'flush without a buffer'
        outs = X.go('construction over a buffer', 'h_mkfb', st, [Ptr('fb'), L(r or 0)])
        for o in [x for o in outs for x in X.go('construction over a buffer', 'h_mkos', o.st, [Ptr('os'), Ptr('fb') if r is not None else NULL])]:
            for x in X.go('construction over a buffer', 'h_rdbuf', o.st, [Ptr('os')]):
                ck.eq(x, x.val, Ptr('fb') if r is not None else NULL, 'rdbuf()')
            for x in X.go('construction over a buffer', 'h_bits', o.st, [Ptr('os')]):
                ck.eq(x, x.val, ZERO if r is not None else L(B['bad']), 'state bits')
            for bits in range(8):
                b = sum(v for i, v in enumerate(B.values()) if bits >> i & 1)
                for x in X.go(name, 'h_clear', o.st, [Ptr('os'), L(b)]):
                    have = b | (B['bad'] if r is None else 0)
                    for y in X.go(name, 'h_flush', x.st, [Ptr('os')]):
                        ck.eq(y, y.val, Ptr('os'), 'the result')
                        n = len([e for e in y.st.log if e[:2] == ('user', 'sync')])
                        if have == 0:
                            ck.prove(y, n == 1, 'the buffer is asked %d times to synchronise' % n)
                        # a stream that is not good may leave its buffer alone
                        ck.prove(y, n <= 1, 'the buffer is asked %d times to synchronise' % n)
                        for z in X.go(name, 'h_bits', y.st, [Ptr('os')]):
                            ck.eq(z, z.val, L(have | (B['bad'] if n and r else 0)), '%s: state bits' % name)
            if r is None:
                continue
            for mask in (B['bad'], B['eof'] | B['fail']):
                for x in X.go(name, 'h_exceptions', o.st, [Ptr('os'), L(mask)]):
                    for y in ck.run(name + ' with an exception mask', X.mod, 'h_flush', x.st, [Ptr('os')], X.M):
                        if y.kind not in ('ret', 'throw'):
                            continue
                        want = bool(r and mask & B['bad'])
                        ck.prove(y, (y.kind == 'throw') == want, 'flush ' + ('throws' if y.kind == 'throw' else 'does not throw'))
                        for z in X.go(name, 'h_bits', y.st, [Ptr('os')]):
                            ck.eq(z, z.val, L(B['bad'] if r else 0), '%s with an exception mask: state bits' % name)


def run(ck, ce=False):
    """ce: evaluated at compile time, when nothing is written and no character counted"""
    X = Out(ck)
    X.ce = ce
    e = lambda o, x: o.st.L(x)
    simple = {'int': ('int', 32), 'uint': ('uint', 32), 'long': ('long', 64), 'short': ('int', 16)}
    for sname, std, p, st0 in X.each():
        to = 'to ' + sname
        for n, (kind, bits) in simple.items():
            st = st0.copy()
            v = Lin.sym('v')
            lo, hi = (0, (1 << bits) - 1) if n[0] == 'u' else (-(1 << (bits - 1)), (1 << (bits - 1)) - 1)
            st.cons = st.cons.add(v - lo).add(hi - v)
            for o in X.go('%s %s' % (n, to), 'h_' + n, st, [p, v]):
                X.written(o, std, [('value', kind, v)], n)
                ck.eq(o, o.val, p, 'the result')
        st = st0.copy()
        c = Term('c', (), 8)
        for o in X.go('char ' + to, 'h_char', st, [p, c]):
            X.written(o, std, [('value', 'char', c)], 'char')
            ck.eq(o, o.val, p, 'the result')
        for n in ('cstr', 'mstr'):
            st = st0.copy()
            k = cstr(st, 'z')
            for o in X.go('null-terminated string ' + to, 'h_' + n, st, [p, Ptr('z')]):
                X.written(o, std, [('text', [(e(o, k), lambda i: ch('z', i))])], 'null-terminated string')
                ck.eq(o, o.val, p, 'the result')
        st = st0.copy()
        k, cap = X.S.make(st, 's')
        for o in X.go('string ' + to, 'h_string', st, [p, Ptr('s')]):
            X.written(o, std, [('text', [(e(o, k), lambda i: ch('s', i))])], 'string')
            ck.eq(o, o.val, p, 'the result')
            ck.no_leak(o, {'s.buf'})
        for n in ('ptr', 'qptr'):
            st = st0.copy()
            st.mem['q'] = Flat('ext', 4, {0: (4, Term('q', (), 32))})
            for o in X.go('pointer ' + to, 'h_' + n, st, [p, Ptr('q')]):
                X.written(o, std, [('value', 'ptr', Ptr('q'))], 'pointer')
                ck.eq(o, o.val, p, 'the result')
        for n in ('uptr', 'sptr'):
            st = st0.copy()
            st.mem['h'] = Flat('ext', 64, {})
            st.mem['q'] = Flat('heap', 4, {0: (4, Term('q', (), 32))}, tag='new')
            for q in (Ptr('q'), NULL):
                for o in X.go('construction', 'h_mk' + n, st, [Ptr('h'), q]):
                    w = 'smart pointer ' if q is not NULL else 'null smart pointer '
                    for x in X.go(w + to, 'h_' + n, o.st, [p, Ptr('h')]):
                        X.written(x, std, [('value', 'ptr', q)], w)
                        ck.eq(x, x.val, p, 'the result')
        for n, want in (('endl', '_ZSt4endl'), ('dec', '_ZSt3dec'), ('hex', '_ZSt3hex'), ('oct', '_ZSt3oct')):
            for o in X.go('%s %s' % (n, to), 'h_' + n, st0.copy(), [p]):
                X.written(o, std, [('manip', want)], n)
                ck.eq(o, o.val, p, 'the result')
        st = st0.copy()
        k = cstr(st, 'z')
        v = Lin.sym('v')
        st.cons = st.cons.add(v + (1 << 31)).add((1 << 31) - 1 - v)
        for o in X.go('a chain of insertions ' + to, 'h_chain', st, [p, v, c, Ptr('z')]):
            X.written(o, std, [('value', 'int', v), ('value', 'char', c), ('text', [(e(o, k), lambda i: ch('z', i))])], 'a chain of insertions')
        # fprintf
        st = st0.copy()
        k = cstr(st, 'z')
        st.cons = st.cons.add((1 << 30) - k)
        for o in X.go('fprintf without arguments ' + to, 'h_fprintf0', st, [p, Ptr('z')]):
            X.written(o, std, [('text', [(e(o, k), lambda i: ch('z', i))])], 'fprintf')
            ck.eq(o, o.val, e(o, ZERO if ce else k), 'the result')
        for n, args in (('1', (v,)), ('3', (Lin.sym('w'), Term('d', (), 'f'), Ptr('t')))):
            st = st0.copy()
            cstr(st, 'z')
            cstr(st, 't')
            st.cons = st.cons.add(v + (1 << 31)).add((1 << 31) - 1 - v)
            for o in X.go('fprintf ' + to, 'h_fprintf' + n, st, [p, Ptr('z')] + list(args)):
                if ce:
                    X.written(o, std, [], 'fprintf')
                    ck.eq(o, o.val, ZERO, 'the result')
                    ck.no_leak(o, ())
                    continue
                k = o.st.L(Lin.sym('formatted.len'))
                if decide(o.st, ge(k)):
                    X.written(o, std, [('text', [(k, lambda i: ch('formatted', i))])], 'fprintf')
                else:
                    X.written(o, std, [], 'fprintf with an encoding error')
                ck.eq(o, o.val, k, 'the result')
                ck.no_leak(o, ())
                fm = [q for q in o.st.log if q[0] == 'format']
                if std:
                    ck.prove(o, len(fm) == 1 and fm[0][1] == (Ptr('z'),) + tuple(vsubst(a, o.st.elim) for a in args), 'fprintf: formats something else')
    for n, args in (('0', ()), ('1', (Lin.sym('v'),)), ('3', (Lin.sym('w'), Term('d', (), 'f'), Ptr('t')))):
        st = State()
        cstr(st, 'z')
        cstr(st, 't')
        v = Lin.sym('v')
        st.cons = st.cons.add(v + (1 << 31)).add((1 << 31) - 1 - v)
        for o in X.go('printf', 'h_printf' + n, st, [Ptr('z')] + list(args)):
            log = o.st.log
            if ce:
                X.written(o, None, [], 'printf')
                ck.eq(o, o.val, ZERO, 'the result')
                continue
            want = ('printf', Ptr('z')) + tuple(vsubst(a, o.st.elim) for a in args)
            ok = len(log) == 1 and log[0] == want
            if n == '0' and len(log) == 1 and log[0][0] == 'printf' and len(log[0]) == 3:
                f = o.st.mem.get(log[0][1].obj) if isinstance(log[0][1], Ptr) else None
                ok = f is not None and isinstance(f, Flat) and [f.cells.get(i, (1, None))[1] for i in range(3)] == [L(37), L(115), ZERO] and log[0][2] == Ptr('z')
            ck.prove(o, ok, 'printf passes on %r instead of %r' % (log, want))
            if ok:
                ck.eq(o, o.val, o.st.L(Lin.sym('printed0')), 'the result')
    if not ce:
        manipulators(X)
        flushing(X)
    for n, want in (('out', 'cout'), ('err', 'cerr'), ('in', 'cin')):
        for o in X.go('std' + n, 'h_' + n, State(), []):
            ck.eq(o, o.val, X.address('h_' + want), 'std%s' % n)
