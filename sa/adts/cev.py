"""compile-time and run-time evaluation agree: K02

A program can only behave differently in the two evaluations where it asks which
one it is in.  Every harness is lowered twice, with that question answered no and
yes.  Operations whose reachable code is the same instruction for instruction agree
for every input.  For the others the specification of their operations is decided
for the compile-time lowering too."""
import concurrent.futures, glob, importlib, re
from ..spec import *

MODS = {'vec.cpp': [('vec', None)], 'str.cpp': [('str', None)], 'lst.cpp': [('lst', 'L01')], 'fls.cpp': [('lst', 'F01')], 'deq.cpp': [('deq', None)],
        'que.cpp': [('que', None)], 'set.cpp': [('tre', 'T01')], 'map.cpp': [('tre', 'T01')], 'sst.cpp': [('sst', None)], 'ptr.cpp': [('uptr', None)],
        'sptr.cpp': [('sptr', None)], 'fun.cpp': [('fun', None)], 'swp.cpp': [('swp', None)], 'cct.cpp': [('cct', None)], 'cmt.cpp': [('cmt', None)], 'cpx.cpp': [('cpx', None), ('cpf', None)],
        'out.cpp': [('out', None)], 'inst.cpp': []}
CE = ['-include', os.path.join(ir.VERIF, 'harness', 'ce.hpp')]


def norm(x):
    if isinstance(x, dict):
        return {k: norm(v) for k, v in x.items() if k not in ('loc', 'dbg', 'line')}
    if isinstance(x, list):
        return [norm(v) for v in x]
    return x


def refs(x, acc):
    if isinstance(x, dict):
        for v in x.values():
            refs(v, acc)
    elif isinstance(x, list):
        for v in x:
            refs(v, acc)
    elif isinstance(x, str):
        acc.add(x)


def plain(s):
    return re.sub(r'#\d+', '#', str(s))


class Sub(Checker):
    def __init__(self, ck, pid):
        super().__init__(pid, (), ck.verbose)
        self.tags = TAGS
        self.rec = {}

    def run(self, scenario, mod, entry, st, args, models, allow=()):
        outs = super().run(scenario, mod, entry, st, args, models, allow)
        n = 0
        while (scenario, entry, n) in self.rec:
            n += 1
        self.rec[scenario, entry, n] = (set(st.mem), outs)
        return outs


def plain_value(v):
    return v is not RAW and '#' not in repr(v)


def effects(outs, objs):
    """what an operation leaves in the objects it was given: {(object, offset): value}, where
    it is the same in every outcome and expressed in the inputs"""
    r = None
    for o in outs:
        cur = {('result', 0): o.val} if o.kind == 'ret' and o.val is not None else {}
        for k in objs:
            ob = o.st.mem.get(k)
            if isinstance(ob, Flat) and ob.alive:
                for off, (w, v) in ob.cells.items():
                    cur[k, off] = v
        if r is None:
            r = cur
        else:
            r = {k: v for k, v in r.items() if k in cur and cur[k] == v}
    return r or {}


def same_effects(ck, rt, ce):
    for key, (objs, a) in rt.rec.items():
        if key not in ce.rec or not a:
            continue
        scenario, entry, n = key
        b = ce.rec[key][1]
        want = effects([o for o in a if o.kind == 'ret'], objs)
        ck.cur = 'in a constant evaluation: ' + scenario
        for o in b:
            if o.kind != 'ret':
                continue
            for (k, off), v in want.items():
                if k == 'result' and 'printf' in entry or not plain_value(v):
                    continue
                if k == 'result':
                    w = o.val
                else:
                    ob = o.st.mem.get(k)
                    w = ob.cells.get(off, (0, RAW))[1] if isinstance(ob, Flat) and ob.alive else RAW
                v = vsubst(v, o.st.elim)
                if w == v:
                    ck.obl += 1
                    ck.proved += 1
                elif type(w) is type(v) and isinstance(v, (Lin, Ptr)):
                    ck.eq(o, w, v, 'the %s differs from that of an evaluation at run time' % ('result' if k == 'result' else 'effect on %s at offset %d' % (k, off)))
                elif o.st.exact and plain_value(w):
                    ck.prove(o, False, 'the %s differs from that of an evaluation at run time: %r instead of %r' % ('result' if k == 'result' else 'effect on %s at offset %d' % (k, off), w, v))


def together(st, trail):
    """the part of a state where the choices of a path were made, None if that cannot be told"""
    ss = [st]
    for c in trail:
        if '#' in repr(c):
            return None
        ss = [t for s in ss for t in assume(s, csubst(c, s.elim), False)]
        if len(ss) > 4:
            return None
    return ss


def path_effects(ck, rt, ce):
    """the same for what depends on the path: a path of one evaluation against the path of
    the other that makes the same choices"""
    for key, (objs, a) in rt.rec.items():
        scenario, entry, n = key
        if key not in ce.rec or not a or len(a) > 12 or 'printf' in entry:
            continue
        b = ce.rec[key][1]
        common = effects([o for o in a if o.kind == 'ret'], objs)
        ck.cur = 'in a constant evaluation: ' + scenario
        for o in b:
            if o.kind != 'ret' or not o.st.exact:
                continue
            try:
                pairs = [(r, together(o.st, r.st.trail)) for r in a]
            except (Lost, Fork, Bad):
                continue
            if any(ss is None for r, ss in pairs):
                continue
            for r, ss in pairs:
                if r.kind != 'ret' or not r.st.exact:
                    continue
                for s in ss:
                    try:
                        if any(q is not r and together(s, q.st.trail) != [] for q in a):
                            continue
                    except (Lost, Fork, Bad):
                        continue
                    cells = {('result', 0): r.val} if r.val is not None else {}
                    for k in objs:
                        ob = r.st.mem.get(k)
                        if isinstance(ob, Flat) and ob.alive:
                            for off, (w, v) in ob.cells.items():
                                cells[k, off] = v
                    for (k, off), v in cells.items():
                        if (k, off) in common or not isinstance(v, Lin) or not plain_value(v):
                            continue
                        if k == 'result':
                            w = vsubst(o.val, s.elim)
                        else:
                            ob = s.mem.get(k)
                            w = ob.cells.get(off, (0, RAW))[1] if isinstance(ob, Flat) and ob.alive else RAW
                        v = vsubst(v, s.elim)
                        if isinstance(w, Lin) and plain_value(w):
                            ck.eq(Outcome('ret', s, o.val, o.loc), w, v, 'the %s differs from that of an evaluation at run time' % ('result' if k == 'result' else 'effect on %s at offset %d' % (k, off)))


class AllTags:
    def __contains__(self, x):
        return True

    def __and__(self, o):
        return o


TAGS = AllTags()


def specs(ck, m, pid, ce):
    s = Sub(ck, pid or ck.pid)
    mod = importlib.import_module('sa.adts.' + m)
    ir.EXTRA = list(CE) if ce else []
    try:
        if m == 'out':
            mod.run(s, ce)
        else:
            mod.run(s)
    except ir.Broken as e:
        s.und('%s is not analysed: %s' % (m, e), '')
    finally:
        ir.EXTRA = []
    return s


def run(ck):
    flags = list(CE)
    if any(re.search(r'\bif\s+consteval\b', open(f).read()) for f in glob.glob(ir.REPO + '/include/cest/*.hpp')):
        flags.append('-Dconsteval=(true)')
    CE[:] = flags
    srcs = sorted(MODS)

    def both(s):
        try:
            return ir.compile_ir(s, inline=False), ir.compile_ir(s, flags, inline=False)
        except ir.CompileError as e:
            return e
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        mods = dict(zip(srcs, ex.map(both, srcs)))
    entries = 0
    todo = []
    for s in srcs:
        ck.cur = s
        if isinstance(mods[s], ir.CompileError):
            raise mods[s]
        a, b = mods[s]
        A = {n: norm(F.d) for n, F in a.funcs.items()}
        B = {n: norm(F.d) for n, F in b.funcs.items()}
        differ = {n for n in set(A) | set(B) if A.get(n) != B.get(n)}
        graph = {}
        for n in set(A) | set(B):
            acc = set()
            refs(A.get(n, {}), acc)
            refs(B.get(n, {}), acc)
            graph[n] = acc & (set(A) | set(B)) - {n}
        bad = set(differ)
        grew = True
        while grew:
            grew = False
            for n, r in graph.items():
                if n not in bad and r & bad:
                    bad.add(n)
                    grew = True
        ck.functions |= set(A)
        for n in sorted(A):
            if n.startswith('h_') or s == 'inst.cpp':
                ck.obl += 1
                entries += 1
                if n not in bad:
                    ck.proved += 1
        ck.scen.append(s)
        hit = sorted(n for n in bad if n.startswith('h_'))
        if ck.verbose:
            print(s, len(A), 'differ', sorted(differ), 'entries', hit)
        if not bad and s != 'out.cpp':
            continue
        if not MODS[s]:
            # instantiated here only: decided where the other harnesses reach it
            for n in sorted(bad):
                ck.und('%s asks which evaluation it is in; no operation specified in this harness' % n, s)
            continue
        ran = False
        for m, pid in MODS[s]:
            if (m, pid) in todo:
                ran = True
                continue
            todo.append((m, pid))
            rt = specs(ck, m, pid, False)
            ce = specs(ck, m, pid, True)
            known = {(f.scenario, plain(f.what)) for f in rt.findings} if m != 'out' else set()
            ck.obl += ce.obl
            ck.proved += ce.proved
            ck.functions |= ce.functions
            ck.lines |= ce.lines
            for f in ce.findings:
                if (f.scenario, plain(f.what)) not in known:
                    f.scenario = 'in a constant evaluation: ' + f.scenario
                    ck.findings.append(f)
            ck.undecided += ce.undecided
            ck.scen += ce.scen
            same_effects(ck, rt, ce)
            path_effects(ck, rt, ce)
            ran = True
        if ran:
            ck.proved += len(hit)
    ck.cur = ''
    if entries < 500:
        raise ir.Broken('only %d operations compared' % entries)
