"""elementary functions: exact results and identities (M04)"""
import math
from .chain import *
from ..ratio import *
from .cpx import CEngine, known

PI = math.pi
ATOMS = {'sin': 1, 'cos': 1, 'tan': 1, 'sinh': 1, 'cosh': 1, 'tanh': 1, 'exp': 1, 'log': 1, 'sqrt': 1, 'atan': 1, 'asin': 1, 'acos': 1,
         'fabs': 1, 'abs': 1, 'atan2': 2}


def folded(v):
    """the value of an expression of constants, as IEEE arithmetic has it; or None"""
    if isinstance(v, Flt):
        return v.v
    if isinstance(v, Lin):
        return float(v.c) if v.is_const() else None
    if not isinstance(v, Term):
        return None
    if v.src == 'fneg':
        a = folded(v.args[0])
        return None if a is None else -a
    if v.src in ('fpext', 'sitofp', 'uitofp'):
        return folded(v.args[0])
    if v.src in ('fadd', 'fsub', 'fmul', 'fdiv'):
        a, b = folded(v.args[0]), folded(v.args[1])
        if a is None or b is None or v.src == 'fdiv' and b == 0:
            return None
        return {'fadd': lambda: a + b, 'fsub': lambda: a - b, 'fmul': lambda: a * b, 'fdiv': lambda: a / b}[v.src]()
    return None


def whole(v):
    """(k, c): the value is k + c*f for the fraction 0 < f < 1; or None"""
    if isinstance(v, Flt):
        return (L(int(v.v)), 0) if v.v == v.v and abs(v.v) < 2 ** 52 and v.v == int(v.v) else None
    if not isinstance(v, Term):
        return None
    if v.src == 'real':
        return v.args[0], int(v.args[1].c)
    if v.src in ('sitofp', 'fpext'):
        return (v.args[0], 0) if isinstance(v.args[0], Lin) else whole(v.args[0])
    if v.src == 'fneg':
        a = whole(v.args[0])
        return a and (-a[0], -a[1])
    if v.src in ('fadd', 'fsub'):
        a, b = whole(v.args[0]), whole(v.args[1])
        if a and b:
            s = 1 if v.src == 'fadd' else -1
            return a[0] + b[0] * s, a[1] + b[1] * s
    return None


def trunc(st, k, c):
    """towards zero"""
    if c == 0:
        return k
    if c == 1:
        return k if truth(st, BInt(ge(k))) else k + 1
    if c == -1:
        return k - 1 if truth(st, BInt(ge(k - 1))) else k
    raise Lost('a fraction')


class MEngine(CEngine):
    """numbers as an integer part and a fraction; comparisons with zero in one form"""

    def cast(self, st, op, v, fb, tb):
        if op == 'fptosi':
            x = folded(v)
            if x is not None:
                if x != x or abs(x) >= 2 ** (tb - 1 if isinstance(tb, int) else 31):
                    raise Bad('conversion of a number out of range to an integer')
                return L(int(x))
            w = whole(v)
            if w:
                return trunc(st, *w)
        return CEngine.cast(self, st, op, v, fb, tb)

    def fcmp(self, st, pred, a, b):
        if a is RAW or b is RAW:
            raise Bad('comparison of an uninitialised value')
        p = pred[1:] if pred not in ('ord', 'uno') else pred
        x, y = folded(a), folded(b)
        if x is not None and y is not None:
            return Engine.fcmp(self, st, pred, Flt(x), Flt(y))
        v, w = whole(a), whole(b)
        if v and w:
            if p in ('ord', 'uno'):
                return p == 'ord'
            k, c = v[0] - w[0], v[1] - w[1]
            if abs(c) > 1:
                raise Lost('a fraction')
            pos = ge(k - 1) if c <= 0 else ge(k)
            neg = ge(-k - 1) if c >= 0 else ge(-k)
            eq = eq0(k) if c == 0 else False
            return {'eq': eq, 'ne': cnot(eq), 'gt': pos, 'lt': neg, 'ge': cnot(neg), 'le': cnot(pos)}[p]
        flip = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}
        for _ in range(3):
            if isinstance(a, Term) and a.src == 'fneg' and isinstance(b, Flt):
                a, b, pred = a.args[0], Flt(-b.v if b.v else 0.0), pred[0] + flip.get(p, p) if len(p) == 2 else pred
                p = pred[1:] if pred not in ('ord', 'uno') else pred
            elif isinstance(b, Term) and b.src == 'fneg' and isinstance(a, Flt):
                a, b, pred = Flt(-a.v if a.v else 0.0), b.args[0], pred[0] + flip.get(p, p) if len(p) == 2 else pred
                p = pred[1:] if pred not in ('ord', 'uno') else pred
        return CEngine.fcmp(self, st, pred, a, b)


def public(name):
    """the mangled name of a public function -> its name, or None"""
    for f, n in ATOMS.items():
        if name == '_ZN4cest%d%sE%s' % (len(f), f, 'd' * n) or name == f:
            return f
    return None


def recursive(mod):
    """internal functions that call themselves, however indirectly"""
    calls = {}
    for n, f in mod.funcs.items():
        calls[n] = {i['fn'][1] for b in f.blocks.values() for i in b if i['op'] in ('call', 'invoke') and i['fn'][0] == 'f'} if hasattr(f, 'blocks') else set()
    out = set()
    for n in calls:
        seen, todo = set(), list(calls[n])
        while todo:
            m = todo.pop()
            if m == n:
                out.add(n)
                break
            if m not in seen:
                seen.add(m)
                todo += calls.get(m, ())
    return out


def atom(name):
    def m(eng, st, args, ins):
        if any(x is RAW for x in args):
            raise Bad('an uninitialised value is used')
        return Term('fn:' + name, tuple(args), 'f')
    return m


def models_for(mod, own, rec):
    """own: the function under analysis is followed, all other public functions are what they
    are called, internal functions that recurse are left unknown"""
    m = base_models()

    def fmuladd(eng, st, args, ins):
        return Term('fadd', (Term('fmul', (args[0], args[1]), 'f'), args[2]), 'f')
    m['llvm.fmuladd.f64'] = fmuladd
    m['llvm.fabs.f64'] = atom('abs')
    for n in list(mod.funcs):
        f = public(n)
        if f and f not in own and f not in ('fabs', 'abs'):
            m[n] = atom(f)
        elif not f and n in rec and n != '_ZN4cest3powEdi':
            m[n] = atom('?' + n)
    for f in ATOMS:
        m.setdefault(f, atom(f))
    if 'pow' not in own:
        def powi(eng, st, args, ins):
            if isinstance(args[1], Lin) and args[1].is_const() and abs(args[1].c) <= 30:
                r = Flt(1.0)
                for _ in range(abs(int(args[1].c))):
                    r = Term('fmul', (r, args[0]), 'f')
                return r if args[1].c >= 0 else Term('fdiv', (Flt(1.0), r), 'f')
            return Term('fn:?powi', tuple(args), 'f')
        m['_ZN4cest3powEdi'] = powi
    return m


X, Y = Term('x', (), 'f'), Term('y', (), 'f')


def rounding(ck, mod, rec):
    k = Lin.sym('k')
    M = models_for(mod, ('floor', 'ceil'), rec)
    for name, up in (('floor', 0), ('ceil', 1)):
        for c, what in ((0, 'a whole number'), (1, 'a number with a fraction')):
            st = State()
            st.cons = st.cons.add(k + (1 << 31) - 2).add(L((1 << 31) - 3) - k)
            for o in ck.returns(ck.run('%s of %s' % (name, what), mod, 'h_' + name, st, [Term('real', (k, L(c)), 'f')], M)):
                if not isinstance(o.val, Lin):
                    ck.obl += 1
                    ck.und('the result is %r' % (o.val,), o.loc)
                    continue
                ck.eq(o, o.val, o.st.L(k) + (up if c else 0), 'the result (the argument is k%s)' % (' and a fraction' if c else ''))
        for x in (1 - 2.0 ** -53, -(1 - 2.0 ** -53), 2.0 ** -1074, -2.0 ** -1074, 0.0, -0.0, 1.5 - 2.0 ** -52, 2.0 ** 31 - 2, -(2.0 ** 31) + 1,
                  1073741823.9999999, -1073741823.9999999):
            for o in ck.returns(ck.run('%s of %r' % (name, x), mod, 'h_' + name, State(), [Flt(x)], M)):
                if isinstance(o.val, Lin) and o.val.is_const():
                    w = getattr(math, name)(x)
                    ck.prove(o, o.val.c == w, '%s of %r is %d instead of %d' % (name, x, o.val.c, w))
                else:
                    ck.obl += 1
                    ck.und('the result is %r' % (o.val,), o.loc)


def is_zero(o, d):
    """is the expression zero, constants being what they are up to rounding?"""
    n = dict(d.n)
    if d.d != const(1):
        return not n
    return all(abs(c) < Fraction(1, 10 ** 9) for c in n.values())


def judge(ck, o, have, want, what):
    """have equals want, over the reals"""
    if have is RAW:
        return ck.fail(o, '%s is indeterminate' % what, 'ub')
    try:
        h = angles(ratio(have))
        ok = is_zero(o, h - want)
    except Unsure as e:
        ck.obl += 1
        ck.und('%s: %s' % (what, e), o.loc)
        return
    if not ok:
        try:
            d = differ(h, want, known(o))
        except (Unsure, AttributeError):
            d = None
        if not d:
            ck.obl += 1
            ck.und('%s: whether %r is %r' % (what, h, want), o.loc)
            return
    ck.prove(o, ok, '%s is %r instead of %r' % (what, h, want))


def angles(r):
    """sine and cosine of +-x + c, for c a multiple of a right angle, as sine or cosine of x"""
    def one(a):
        if a[0] != 'f' or a[1] not in ('sin', 'cos') or a[2][1] != freeze(const(1)):
            return None
        n = dict(a[2][0])
        c = n.pop((), Fraction(0))
        if len(n) != 1 or abs(list(n.values())[0]) != 1:
            return None
        q = float(c) / (PI / 2)
        if abs(q - round(q)) > 1e-9:
            return None
        q, (m, s) = round(q) + (0 if a[1] == 'sin' else 1), list(n.items())[0]
        x = R({m: Fraction(1)})
        # sin(s x + q pi/2)
        q %= 4
        if q == 0:
            return fn('sin', x) * s
        if q == 1:
            return fn('cos', x)
        if q == 2:
            return fn('sin', x) * -s
        return -fn('cos', x)

    def poly(p):
        t = R(const(0))
        for m, c in p.items():
            u = R(const(c))
            for a, k in m:
                v = one(a) or R({((a, 1),): Fraction(1)})
                for _ in range(k):
                    u = u * v
            t = t + u
        return t
    if r.d == const(1):
        return poly(r.n)
    return poly(r.n) / poly(r.d)


def power(v, base):
    """the exponent of base in a product (Lin), or None"""
    if v == base:
        return L(1)
    if isinstance(v, Flt):
        return L(0) if v.v == 1.0 else None
    if not isinstance(v, Term):
        return None
    if v.src in ('fmul', 'fdiv'):
        a, b = power(v.args[0], base), power(v.args[1], base)
        return None if a is None or b is None else a + b if v.src == 'fmul' else a - b
    if v.src == 'fn:powi':
        a = power(v.args[0], base)
        return v.args[1] * a.c if a is not None and a.is_const() and isinstance(v.args[1], Lin) else None
    return None


def powers(ck, mod, rec):
    M = models_for(mod, ('pow',), rec)
    x = sym('x')
    for n in list(range(-20, 21)) + [31, 32, 33, 63, 64, 65, 100, 127, 128]:
        hold = CEngine.LIMIT
        want = R({((('s', 'x'), abs(n)),): Fraction(1)}) if n else R(const(1))
        if n < 0:
            want = R(const(1)) / want
        ck.engine_depth = 200
        for o in ck.returns(ck.run('pow %d' % n, mod, 'h_pow', State(), [X, L(n)], M)):
            judge(ck, o, o.val, want, 'the power')
    # one step, for every exponent
    name = '_ZN4cest3powEdi'
    if name not in mod.funcs or name not in rec:
        return

    def step(eng, st, args, ins):
        if args[1] == n and args[0] == X:
            raise Bad('the recursion does not get nearer to its end')
        return Term('fn:powi', tuple(args), 'f')
    n = Lin.sym('n')
    M = dict(M)
    M[name] = step
    st = State()
    st.cons = st.cons.add(n + (1 << 31) - 1).add(L((1 << 31) - 1) - n)
    for o in ck.returns(ck.run('pow, one step', mod, name, st, [X, n], M)):
        e = power(o.val, X)
        if e is None:
            ck.obl += 1
            ck.und('the result is %r' % (o.val,), o.loc)
            continue
        ck.eq(o, e, o.st.L(n), 'the exponent')


def run(ck):
    mod = ir.compile_ir('cmt.cpp', inline=False)
    rec = recursive(mod)

    def mk(mod, M):
        e = MEngine(mod, M)
        e.deadline = time.time() + 60
        e.maxdepth = 300
        return e
    ck.make_engine = mk
    rounding(ck, mod, rec)
    # the magnitude
    x, y = sym('x'), sym('y')
    for name in ('abs', 'fabs'):
        for lo, want in ((True, -x), (False, x)):
            st = State()
            st.facts[('flt', X, Flt(0.0))] = lo
            for o in ck.returns(ck.run('%s of a %s number' % (name, 'negative' if lo else 'non-negative'), mod, 'h_' + name, st, [X], models_for(mod, ('abs', 'fabs'), rec))):
                judge(ck, o, o.val, want, 'the result')
    powers(ck, mod, rec)
    # the quadrant
    zero = Flt(0.0)
    for sx in (-1, 0, 1):
        for sy in (-1, 0, 1):
            st = State()
            for v, s in ((X, sx), (Y, sy)):
                st.facts[('flt', v, zero)] = s < 0
                st.facts[('flt', zero, v)] = s > 0
                for k in (('feq', zero, v), ('feq', v, zero)):
                    st.facts[k] = s == 0
            want = fn('atan', y / x) + (0 if sx > 0 else Fraction(PI) if sy >= 0 else -Fraction(PI)) if sx else R(const(Fraction(PI / 2) * sy))
            if not sy:
                want = R(const(0 if sx >= 0 else Fraction(PI)))
            for o in ck.returns(ck.run('atan2(%s, %s)' % ('-0+'[sy + 1], '-0+'[sx + 1]), mod, 'h_atan2', st, [Y, X], models_for(mod, ('atan2',), rec))):
                v = o.val
                judge(ck, o, v if sy else without(v), want, 'the angle')
    for name, want in (('cos', fn('cos', x)),):
        for o in ck.returns(ck.run(name, mod, 'h_' + name, State(), [X], models_for(mod, (name,), rec))):
            judge(ck, o, o.val, want, 'the result')
    for o in ck.returns(ck.run('cosh', mod, 'h_cosh', State(), [X], models_for(mod, ('cosh',), rec))):
        v = o.val
        if isinstance(v, Term) and v.src == 'fn:sqrt':
            judge(ck, o, v.args[0], R(const(1)) + fn('sinh', x) * fn('sinh', x), 'the square of the result')
        else:
            judge(ck, o, v, fn('cosh', x), 'the result')
    for name in ('sinh', 'atan'):
        st = State()
        st.facts[('flt', zero, X)] = True
        st.facts[('flt', X, zero)] = False
        st.facts[('feq', zero, X)] = st.facts[('feq', X, zero)] = False
        st.mem['r'] = Flat('ext', 16, {})
        for o in ck.returns(ck.run(name + ' of opposite numbers', mod, 'h_' + name, st, [X, Ptr('r')], models_for(mod, (name,), rec))):
            p, q = [o.st.mem['r'].cells.get(off, (8, RAW))[1] for off in (0, 8)]
            if p is RAW or q is RAW:
                ck.fail(o, 'the result is indeterminate', 'ub')
                continue
            try:
                w = -ratio(p)
            except Unsure as e:
                ck.obl += 1
                ck.und('%s' % e, o.loc)
                continue
            try:
                k = ratio(q)
                if is_zero(o, k + w) and k.n:
                    # the same on both sides of zero: only nothing is
                    ck.fail(o, '%s of -x is %s of x' % (name, name), 'val')
                    continue
            except Unsure:
                pass
            judge(ck, o, q, w, '%s of -x' % name)
    for v, bad in ((Flt(0.0), lambda r: r == float('-inf')), (Flt(-0.0), lambda r: r == float('-inf')), (X, lambda r: r != r)):
        st = State()
        if v is X:
            st.facts[('flt', X, zero)] = True
            st.facts[('flt', zero, X)] = False
            st.facts[('feq', zero, X)] = st.facts[('feq', X, zero)] = False
        for o in ck.returns(ck.run('log of %s' % ('a negative number' if v is X else v), mod, 'h_log', st, [v], models_for(mod, ('log',), rec))):
            if isinstance(o.val, Flt):
                ck.prove(o, bad(o.val.v), 'the logarithm is %r' % o.val.v)
            else:
                ck.prove(o, False, 'the logarithm is %r' % (o.val,)) if not unknown(o.val) else ck.und('the logarithm is %r' % (o.val,), o.loc)


def unknown(v):
    return isinstance(v, Term) and (v.src.startswith('fn:?') or any(unknown(a) for a in v.args))


def without(v):
    """atan(0/x) is 0"""
    if isinstance(v, Term):
        if v.src == 'fn:atan' and isinstance(v.args[0], Term) and v.args[0].src == 'fdiv' and v.args[0].args[0] == Y:
            return Flt(0.0)
        return Term(v.src, tuple(without(a) for a in v.args), v.bits)
    return v
