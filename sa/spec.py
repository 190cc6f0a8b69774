"""Specifications: scenarios, obligations and verdicts.

A scenario is an entry point of a harness analysed from an abstract initial
state.  Every outcome the analysis computes yields obligations.  An obligation
is PROVED when its negation is infeasible in the outcome's state, REFUTED when
the state is an exact description of reachable points and contains a point
violating it, and UNDECIDED otherwise."""
import os, sys, json, time, traceback, random
from . import ir
from .lin import *
from .values import *
from .state import *
from .absint import *
from .models import *

PROVED, REFUTED, UNDECIDED = 'proved', 'refuted', 'undecided'


class Finding:
    def __init__(self, scenario, what, loc, witness, kind):
        self.scenario = scenario
        self.what = what
        self.loc = loc
        self.witness = witness
        self.kind = kind

    def key(self):
        return '%s|%s|%s' % (self.scenario, self.what, self.loc)


IMPOSSIBLE = object()


def consistent(b, m):
    """no contradiction among the assumptions of b about its terms when its symbols are m"""
    sub = {x: L(v) for x, v in m.items()}
    facts = {}

    def put(key, pol):
        k = canon_key(key)
        if isinstance(k, bool):
            return k == pol
        if k[1] is NEG:
            pol = not pol
        k = k[0]
        if facts.setdefault(k, pol) != pol:
            return False
        return True

    def span(lo, hi):
        if lo.is_const() and hi.is_const() and hi.c - lo.c <= 64:
            return range(int(lo.c), int(hi.c))
        return ()
    some = []
    for key, pol in b.facts.items():
        if key[0] == 'quot':
            continue
        key = ksubst(key, sub)
        if key[0] == 'all':
            js = span(key[1], key[2])
            ks = [ksubst(key[3].key, {RV: L(j)}) for j in js]
            if pol:
                if not all(put(k, True) for k in ks):
                    return False
            elif js or (key[1].is_const() and key[2].is_const()):
                if key[2].c <= key[1].c:
                    return False
                if js:
                    some.append(ks)
        elif not put(key, pol):
            return False
    for lo, hi, key, pol in b.alls:
        lo, hi = lo.subst(sub), hi.subst(sub)
        for j in span(lo, hi):
            if not put(ksubst(ksubst(key, sub), {QV: L(j)}), pol):
                return False
    # equality is a congruence of the bytes compared
    rep = {}

    def find(v):
        while v in rep:
            v = rep[v]
        return v
    for k, pol in facts.items():
        if k[0] == 'eq' and pol:
            x, y = find(k[1]), find(k[2])
            if x != y:
                if isinstance(x, Lin) and isinstance(y, Lin) and x.is_const() and y.is_const():
                    return False
                if isinstance(x, Lin):
                    x, y = y, x
                rep[x] = y
    for k, pol in facts.items():
        if k[0] in ('eq', 'ult', 'slt') and k[0] == 'eq' and not pol or k[0] in ('ult', 'slt') and pol:
            if find(k[1]) == find(k[2]):
                return False
    for ks in some:
        ok = False
        for k in ks:
            c = canon_key(k)
            if c is True or not isinstance(c, bool) and facts.get(c[0]) is (c[1] is POS):
                continue
            if k[0] == 'eq' and find(k[1]) == find(k[2]):
                continue
            ok = True
        if not ok:
            return False
    return True


FORCE = os.environ.get('SA_FORCE')


def small(st, n=14):
    """states in which every size and position has a small value"""
    syms = set()
    for t in st.cons.d:
        syms |= {x for x, k in t}
    syms = sorted(x for x in syms if x[0] != '@')
    rnd = random.Random(len(syms))
    seen = set()
    for trial in range(n):
        s = st.copy()
        order = list(syms)
        rnd.shuffle(order)
        hi = 2 + trial // 2
        key = []
        for x in order:
            done = False
            if x in s.elim:
                continue
            base = [rnd.randint(0, hi) for i in range(6)] + list(range(hi, 30)) + [-1, 1024, 512, 1023]
            for v in base:
                t = s.copy()
                ok = [u for u in assume(t, eq0(Lin.sym(x) - v), False)]
                if ok and ok[0].cons.feasible() is not False:
                    s, done = ok[0], True
                    key.append((x, v))
                    break
            if not done:
                s = None
                break
        if s is None:
            continue
        k = tuple(sorted(key))
        if k in seen:
            continue
        seen.add(k)
        yield s


def copies_counted(models, pre='_ZN1E', tag='copy'):
    """the models, with copy construction and copy assignment of elements in the log"""
    def counted(f):
        def g(eng, st, args, ins):
            st.log += ((tag,),)
            return f(eng, st, args, ins)
        return g
    m = dict(models)
    for k in models:
        if k.startswith(pre) and k.endswith('ERKS_'):
            m[k] = counted(models[k])
    return m


def copies(o):
    return sum(e == ('copy',) for e in o.st.log)


class Checker:
    """collects the verdicts of one property"""

    search = None
    mixed = None

    def __init__(self, pid, tags=('ub', 'life', 'val'), verbose=False):
        self.pid = pid
        self.tags = set(tags)
        self.verbose = verbose
        self.obl = 0
        self.proved = 0
        self.findings = []
        self.undecided = []
        self.scen = []
        self.functions = set()
        self.lines = set()
        self.loops = 0
        self.accel = 0
        self.insns = 0
        self.cur = None
        self.t0 = time.time()

    # -------------------------------------------------------------- verdicts
    def prove(self, o, cond, what, tag='val'):
        """obligation: cond holds in outcome o"""
        if tag not in self.tags:
            return None
        self.obl += 1
        st = o.st
        if cond is True:
            self.proved += 1
            return PROVED
        neg = cnot(cond)
        try:
            bad = assume(st, neg, False)
        except Lost as e:
            self.und(what + ': ' + e.msg, o.loc)
            return UNDECIDED
        if not bad:
            self.proved += 1
            return PROVED
        left = []
        for b in bad:
            if not b.exact:
                continue
            m = self.witness(b)
            if m is IMPOSSIBLE:
                continue
            if m is not None:
                self.refute(what, o, b, m)
                return REFUTED
            left.append(b)
        if all(b.exact for b in bad) and not left:
            self.proved += 1
            return PROVED
        self.und(what + ' (%s)' % (bad[0].why or 'no integer witness found'), o.loc)
        if self.verbose:
            print('   UND', what, cond, 'state', bad[0].cons, bad[0].facts)
        return UNDECIDED

    def witness(self, b):
        """integers for the symbols of b that agree with its constraints and with
        everything assumed about its terms"""
        m = b.cons.model()
        if m is None or consistent(b, m):
            return m
        syms = set()
        for k in b.facts:
            for v in k[1:]:
                vsyms(v, syms)
        for lo, hi, k, p in b.alls:
            vsyms(lo, syms)
            vsyms(hi, syms)
            for v in k[1:]:
                vsyms(v, syms)
        syms = sorted(x for x in syms if x in m)
        pin = {}
        for x in syms:
            d = Lin.sym(x) - m[x]
            if b.cons.entails(d) and b.cons.entails(-d):
                pin[x] = L(m[x])
        if pin and not b.copy().subst(pin):
            return IMPOSSIBLE
        rnd = random.Random(len(syms))
        free = [x for x in syms if x not in pin]
        if len(free) > 12:
            return None
        for trial in range(60):
            cs = b.cons
            rnd.shuffle(free)
            for x in free:
                v = rnd.choice((0, 0, 1, 1, 2, 2, 3, 4, 5))
                d = Lin.sym(x) - v
                t = cs.add(d).add(-d)
                if not t.bad and t.feasible() is not False:
                    cs = t
            m2 = cs.model()
            if m2 is not None and consistent(b, m2):
                return m2
        return None

    def prove_at(self, o, st, cond, what):
        return self.prove(Outcome(o.kind, st, o.val, o.loc), cond, what)

    def fail(self, o, what, tag='val'):
        """the outcome itself is a violation (if reachable)"""
        return self.prove(o, False, what, tag)

    def refute(self, what, o, st, m):
        w = {s: v for s, v in sorted(m.items())}
        for s, e in st.elim.items():
            if '#' not in s and s[0] != '@':
                w[s] = e.eval(m)
        w = {s: v for s, v in w.items() if '#' not in s}
        f = {repr(k): v for k, v in st.facts.items() if k[0] != 'quot'}
        self.findings.append(Finding(self.cur, what, o.loc, {'values': w, 'assumed': f,
                                                             'forall': ['%r<=q<%r: %r is %s' % a for a in st.alls]}, 'refuted'))
        if self.verbose:
            print('   REFUTED', self.cur, what, o.loc, w, f)

    def und(self, what, loc):
        self.undecided.append((self.cur, what, loc))
        if self.verbose:
            print('   UNDECIDED', self.cur, what, loc)

    # -------------------------------------------------------------- running
    def make_engine(self, mod, models):
        return Engine(mod, models)

    def run(self, scenario, mod, entry, st, args, models, allow=()):
        """analyse; returns the outcomes that returned or threw; 'bad' outcomes are findings"""
        self.cur = scenario
        if self.late():
            self.note_late()
            return []
        eng = self.make_engine(mod, models)
        eng.search = self.search
        n0 = len(self.findings)
        try:
            outs = eng.run(entry, st, args)
        except RecursionError:
            outs = [Outcome('lost', st, 'analysis recursion', entry)]
        except ir.Broken:
            raise
        except Exception as e:
            if os.environ.get('SA_DEBUG'):
                raise
            outs = [Outcome('lost', st, 'internal error of the analysis: %r' % e, entry)]
        self.note(eng, scenario)
        if any(o.kind == 'lost' for o in outs) or FORCE:
            outs = list(outs) + self.given_sizes(mod, entry, st, args, models)
        res = []
        for o in outs:
            if o.st.cons.feasible() is False:
                continue
            if o.kind == 'bad':
                self.fail(o, o.val, 'ub')
            elif o.kind == 'lost':
                self.obl += 1
                self.und(o.val, o.loc)
            elif o.kind in ('ret', 'throw') or o.kind in allow:
                res.append(o)
            else:
                self.und('outcome ' + o.kind, o.loc)
        if not outs:
            self.und('no outcome (the call does not terminate in the model)', entry)
        self.eng = eng
        return res

    def given_sizes(self, mod, entry, st, args, models):
        """where the general analysis gets no further: the same analysis for given small
        sizes and positions, following every loop to its end"""
        res = []
        t0 = time.time()
        for s in small(st):
            if time.time() - t0 > 8 or self.late():
                break
            try:
                eng = self.make_engine(mod, models)
                if type(eng) is not Engine or eng.given:
                    return res
                eng.search = None
                eng.given = 80
                eng.deadline = time.time() + 4
                outs = eng.run(entry, s, [vsubst(a, s.elim) if a is not None else a for a in args])
            except (ir.Broken, KeyboardInterrupt):
                raise
            except Exception:
                if os.environ.get('SA_DEBUG'):
                    raise
                continue
            res += [o for o in outs if o.kind in ('ret', 'throw', 'bad') and o.st.exact]
        if self.mixed is None:
            return res
        # a few sizes given, inner loops summarised, the others followed round by round
        t0 = time.time()
        for s in self.mixed(st):
            if time.time() - t0 > 25 or self.late():
                break
            try:
                eng = self.make_engine(mod, models)
                eng.search = None
                eng.peel = 8
                eng.deadline = time.time() + 6
                outs = eng.run(entry, s, [vsubst(a, s.elim) if a is not None else a for a in args])
            except (ir.Broken, KeyboardInterrupt):
                raise
            except Exception:
                if os.environ.get('SA_DEBUG'):
                    raise
                continue
            res += [o for o in outs if o.kind in ('ret', 'throw', 'bad') and o.st.exact]
        return res

    BUDGET = 500

    def late(self):
        return time.time() - self.t0 > self.BUDGET

    def note_late(self):
        self.obl += 1
        self.und('not analysed: the time budget is used up', '')

    def note(self, eng, scenario):
        self.scen.append(scenario)
        self.functions |= eng.stats['functions']
        self.lines |= eng.stats['lines']
        self.loops += eng.stats['loops']
        self.accel += eng.stats['accelerated']
        self.insns += eng.stats['instructions']

    def returns(self, outs, throws=()):
        """keep normal returns; an unexpected exception is a finding"""
        res = []
        for o in outs:
            if o.kind == 'ret':
                res.append(o)
            elif o.val not in throws:
                self.fail(o, 'unexpected exception %s' % o.val)
        return res

    # -------------------------------------------------------------- helpers on outcomes
    def fork(self, o, f):
        """evaluate f(state) partitioning the outcome state where needed; yields (outcome, value)"""
        todo = [o.st]
        n = 0
        while todo:
            s = todo.pop()
            n += 1
            if n > 20000 or n % 100 == 0 and self.late():
                self.obl += 1
                self.und('too many cases', o.loc)
                return
            try:
                c = s.copy()
                v = f(c)
                yield Outcome(o.kind, c, vsubst(o.val, c.elim) if o.val is not None and not isinstance(o.val, str) else o.val, o.loc), v
            except Fork as x:
                try:
                    todo += x.states(s) if hasattr(x, 'states') else assume(s, x.cond, False) + assume(s, cnot(x.cond), False)
                except Bad as y:
                    self.fail(Outcome('bad', s, y.msg, o.loc), y.msg, 'ub')
                except Lost as y:
                    self.obl += 1
                    self.und(y.msg, o.loc)
            except Bad as x:
                self.fail(Outcome('bad', s, x.msg, o.loc), x.msg, 'ub')
            except Lost as x:
                self.obl += 1
                self.und(x.msg, o.loc)

    def cells(self, o, obj, coff=0, width=8):
        a = o.st.mem[obj]
        if isinstance(a, Flat):
            t = o.st.copy()
            a = self.eng.to_arr(t, obj, a, width)
        if a.stride is None:
            return ((ZERO, a.n, RAW),)
        c = a.cols.get(coff)
        n = a.n * a.per if a.mode == 'chk' else a.n
        return c[1] if c else ((ZERO, n, RAW),)

    def seq(self, o, segs, start, expected, what, tag='val'):
        """the cells from `start` on are exactly `expected`: [(count, f)] with f(relative index)->value.
        The counts are Lin; cells outside are not looked at."""
        pos = L(start)
        st = o.st
        rng = []
        for cnt, f in expected:
            rng.append((pos, pos + cnt, pos, f))
            pos = pos + cnt
        for elo, ehi, e0, f in rng:
            # coverage
            for lo, hi, v in segs:
                iv = Lin.sym(fresh('j'))
                cs = st.cons.add(iv - lo).add(hi - 1 - iv).add(iv - elo).add(ehi - 1 - iv)
                if cs.bad or cs.feasible() is False:
                    continue
                t = st.copy()
                t.cons = cs
                # an index determined by the constraints
                want = f(iv - e0)
                have = at(v, iv)
                self.prove(Outcome(o.kind, t, None, o.loc), veq_spec(have, want),
                           '%s: element %r is %r instead of %r' % (what, show(iv - e0, st), desc(have), desc(want)), tag)
            if not segs:
                self.prove(o, ge(elo - ehi), what + ': no storage', tag)
            else:
                self.prove(o, cor(ge(elo - ehi), cand(ge(elo - segs[0][0]), ge(segs[-1][1] - ehi))), what + ': content exceeds the storage', tag)

    def no_stack_elements(self, o):
        for k, ob in o.st.mem.items():
            if ob.kind == 'stack' and isinstance(ob, Flat) and ob.alive:
                for off, (sz, v) in ob.cells.items():
                    if is_E(v):
                        self.fail(o, 'a temporary element is not destroyed', 'life')

    def no_leak(self, o, owned, what='storage allocated by the operation is leaked'):
        """every live heap object is in `owned` (object names)"""
        for k, ob in o.st.mem.items():
            if ob.kind != 'heap' or ob.tag == 'exc' or k in owned:
                continue
            if isinstance(ob, Arr) and not isinstance(ob.alive, bool):
                for lo, hi, v in ob.alive:
                    if v == ONE:
                        self.prove(o, ge(lo - hi), what, 'life')
                continue
            if ob.alive:
                if isinstance(ob, Arr) and ob.mode in ('fam', 'chk'):
                    self.prove(o, ge(-ob.n), what, 'life')
                else:
                    self.fail(o, what, 'life')

    def observe(self, o, mod, entry, args, models):
        """continue outcome o with a call of an observer; yields (outcome, value)"""
        eng = self.make_engine(mod, models)
        try:
            outs = eng.run(entry, o.st, args)
        except ir.Broken:
            raise
        except Exception as e:
            if os.environ.get('SA_DEBUG'):
                raise
            outs = [Outcome('lost', o.st, 'internal error of the analysis: %r' % e, entry)]
        for x in outs:
            if x.st.cons.feasible() is False:
                continue
            x2 = Outcome(o.kind, x.st, o.val, o.loc)
            if x.kind == 'ret':
                v = x.val
                if o.val is not None and not isinstance(o.val, str) and x.st.elim:
                    x2.val = vsubst(o.val, x.st.elim)
                yield x2, v
            elif x.kind == 'bad':
                x2.loc = x.loc or o.loc
                self.fail(x2, 'afterwards: ' + x.val, 'ub')
            elif x.kind == 'throw':
                self.fail(x2, 'afterwards: unexpected exception', 'ub')
            else:
                self.obl += 1
                self.und(str(x.val), x.loc)

    def eq(self, o, a, b, what, tag='val'):
        return self.prove(o, veq_spec(a, b), '%s: %s instead of %s' % (what, desc(a), desc(b)), tag)


def veq_spec(have, want):
    if want is None:
        return True
    if callable(want):
        return want(have)
    if isinstance(want, Special) and want is RAW:
        return have is RAW
    return veq(have, want)


def desc(v):
    return repr(v)


def show(e, st):
    return e


# ------------------------------------------------------------------ driver
KNOWN = os.path.join(ir.VERIF, 'known_findings.txt')


def known_findings(pid):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('known: property=%s ' % pid):
                out.append(line.split(' ', 2)[2])
    return out


def finish(ck, rule, technique_note, trusted, extra=None, minimum=None, level='proof', tier='quick', checker_cmd=None):
    """print the verdict, write evidence, return the exit code"""
    pid = ck.pid
    kn = known_findings(pid)
    os.makedirs(os.path.join(ir.VERIF, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(ir.BUILD, 'replay'), exist_ok=True)
    new = []
    seen = set()
    for f in ck.findings:
        hit = None
        for k in kn:
            if k.split(' :: ')[0].strip() == f.key_stable():
                hit = k
        if hit:
            if hit not in seen:
                print('KNOWN-FINDING: property=%s %s' % (pid, hit))
                seen.add(hit)
        else:
            new.append(f)
    uniq = {}
    for f in new:
        uniq.setdefault((f.scenario, f.what, f.loc), f)
    new = list(uniq.values())
    replay = os.path.join(ir.BUILD, 'replay', pid + '.json')
    if new:
        with open(replay, 'w') as fh:
            json.dump([{'scenario': f.scenario, 'violation': f.what, 'where': f.loc, 'witness': f.witness} for f in new], fh, indent=1)
    for f in new[:12]:
        print('%s: %s: %s\n    at %s\n    witness %s' % (pid, f.scenario, f.what, f.loc, f.witness))
    for s, w, l in ck.undecided[:20]:
        print('UNDECIDED %s: %s: %s at %s' % (pid, s, w, l))
    if minimum is not None and not new:
        if ck.obl < minimum and not ck.undecided:
            print('ANALYSIS-BROKEN %s: only %d obligations (expected at least %d)' % (pid, ck.obl, minimum))
            return 2
    ev = {'property': pid, 'tier': os.environ.get('VERIF_TIER', tier), 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
          'level': level,
          'coverage': {'obligations': ck.obl, 'discharged': ck.proved,
                       'checker_cmd': checker_cmd or ('python3 check.py ' + pid),
                       'trusted_base': trusted,
                       'rule': rule,
                       'technique': technique_note,
                       'scenarios': ck.scen,
                       'entry_points': sorted(ck.functions),
                       'source_lines_analysed': len([l for l in ck.lines if 'cest' in l[0]]),
                       'files': sorted({l[0][l[0].find('include/cest/'):] for l in ck.lines if 'include/cest/' in l[0]}),
                       'loops_analysed': ck.loops, 'loops_accelerated': ck.accel,
                       'instructions_analysed': ck.insns,
                       'undecided': ['%s: %s at %s' % u for u in ck.undecided][:50],
                       'violations': ['%s: %s at %s' % (f.scenario, f.what, f.loc) for f in new][:50],
                       'known_findings': sorted(seen)},
          'wall_s': round(time.time() - ck.t0, 2)}
    if extra:
        ev['coverage'].update(extra)
    with open(os.path.join(ir.VERIF, 'evidence', pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    if new:
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        return 1
    print('%s: held (%d obligations, %d proved, %d undecided, %d scenarios, %.1fs)' % (
        pid, ck.obl, ck.proved, len(ck.undecided), len(ck.scen), time.time() - ck.t0))
    return 0


def _ks(self):
    return '%s: %s' % (self.scenario, self.what)


Finding.key_stable = _ks
