"""character classification: M03"""
from .chain import *


class Unroll(Engine):
    """loops over the constant tables are followed exactly"""
    LIMIT = 400

    def loop(self, F, Lp, st):
        self.stats['loops'] += 1
        exits, outs = [], []
        work = [st.copy()]
        for i in range(self.LIMIT):
            nxt = []
            for s in work:
                b, e, o = self.region(F, [(Lp.header, s)], Lp)
                nxt += b
                exits += e
                outs += o
            work = nxt
            if not work:
                return exits, outs
        return Engine.loop(self, F, Lp, st)


RANGES = {'isalnum': ((48, 57), (65, 90), (97, 122)), 'isupper': ((65, 90),)}


def run(ck):
    mod = ir.compile_ir('cct.cpp')
    M = models()

    def mk(mod, M):
        e = Unroll(mod, M)
        e.deadline = time.time() + 200
        e.budget = 10 ** 7
        return e
    ck.make_engine = mk
    ch = Lin.sym('ch')
    for f, rs in RANGES.items():
        st = State()
        st.cons = st.cons.add(ch + (1 << 31)).add(L((1 << 31) - 1) - ch)
        outs = ck.returns(ck.run(f, mod, 'h_' + f, st, [ch], M))
        for o in outs:
            ck.no_leak(o, ())
            v = o.val
            c = cnot(v.cond) if isinstance(v, BInt) else eq0(v) if isinstance(v, Lin) else None
            if c is None:
                ck.und('the result is %r' % (v,), o.loc)
                continue
            x = o.st.L(ch)
            inside = False
            for lo, hi in rs:
                inside = cor(inside, cand(ge(x - lo), ge(L(hi) - x)))
            ck.prove(o, cor(c, inside), '%s is non-zero for a character outside its class' % f)
            ck.prove(o, cor(cnot(c), cnot(inside)), '%s is zero for a character of its class' % f)
