"""n-ary swap: A01"""
from ..spec import *


def run(ck):
    mod = ir.compile_ir('swp.cpp')
    M = base_models()
    M.update(E_models())

    def counted(f):
        def g(eng, st, args, ins):
            st.log += (('copy',),)
            return f(eng, st, args, ins)
        return g
    for k in list(M):
        if k.startswith('_ZN1E') and k.endswith('ERKS_'):
            M[k] = counted(M[k])
    top = 8
    for fn in ('swap', 'swapr'):
        for kind in ('', 't'):
            for n in range(0, top + 1):
                entry = 'h_%s%s%d' % (kind, fn, n)
                if entry not in mod.funcs:
                    continue
                st = State()
                names = ['v%d' % i for i in range(n)]
                vals = [Term(x, (), 'E' if not kind else 64) for x in names]
                for x, v in zip(names, vals):
                    st.mem[x] = Flat('ext', 8, {0: (8, v)})
                outs = ck.returns(ck.run('%s of %d %s' % (fn, n, 'pointers' if kind else 'opaque values'), mod, entry, st, [Ptr(x) for x in names], M))
                for o in outs:
                    ck.no_stack_elements(o)
                    ck.no_leak(o, set())
                    for i, x in enumerate(names):
                        w = vals[(i + 1) % n] if fn == 'swap' else vals[(i - 1) % n]
                        ck.eq(o, o.st.mem[x].cells.get(0, (8, RAW))[1], w, 'variable %d of %d' % (i + 1, n))
                    ck.prove(o, len(o.st.log) == 0, 'a value is copied, not moved')
    return ck
