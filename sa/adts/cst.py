"""read-only access cannot modify: X02"""
import importlib, os, re, subprocess
from .. import ast, ir
from ..absint import Engine
from ..spec import Checker, Finding
from .ctx import Ast


def witnesses(ck, src, scenario, minimum):
    """compile-time witnesses: every static_assert in the file is an obligation, every error a violation"""
    path = os.path.join(ir.VERIF, 'harness', 'types', src)
    text = open(path).read()
    # the number of assertions the file makes, counted in the preprocessed text
    cc = ['clang++-18'] + ast.FLAGS + ['-I' + ir.VERIF + '/harness', path]
    pre = subprocess.run(cc + ['-E', '-P'], capture_output=True, text=True)
    if pre.returncode:
        raise ir.CompileError(pre.stderr[-2000:])
    own = pre.stdout[pre.stdout.rfind('struct WITNESSES'):]
    n = len(re.findall(r'\bstatic_assert\b', own))
    if not n or 'struct WITNESSES' not in pre.stdout:
        raise ir.Broken('no witnesses in ' + src)
    r = subprocess.run(cc + ['-fsyntax-only', '-ferror-limit=0', '-ftemplate-backtrace-limit=0', '-fno-caret-diagnostics'], capture_output=True, text=True)
    if r.returncode < 0 or r.returncode and ' error: ' not in r.stderr:
        raise ir.Broken('the compiler failed: ' + r.stderr[-500:])
    ck.cur = scenario
    bad = []
    for b in re.split(r'(?m)^(?=\S[^\n]*?:\d+:\d+: (?:fatal )?(?:error|note|warning): )', r.stderr):
        m = re.match(r'(\S+?):(\d+):\d+: (?:fatal )?error: (.*)', b, re.S)
        if not m:
            continue
        w = re.search(r'\{(\w+)\} [^\n]*', m.group(3))
        what = w.group(0).strip() if w else m.group(3).split('\n')[0]
        if not w and m.group(1).endswith(src):
            line = text.split('\n')[int(m.group(2)) - 1]
            c = re.search(r'"(\w+)"', line)
            what = '{%s} %s' % (c.group(1) if c else '', what)
        bad.append((what, '%s:%s' % (ast.short(m.group(1)), m.group(2))))
    ck.obl += n
    ck.proved += max(0, n - len(bad))
    seen = set()
    for what, loc in bad:
        if what in seen:
            continue
        seen.add(what)
        ck.findings.append(Finding(scenario, what, loc, {}, 'refuted'))
        if ck.verbose:
            print('   REFUTED', scenario, what, loc)
    ck.scen.append({'scenario': scenario, 'obligations': n})
    if n < minimum:
        raise ir.Broken('%s: only %d witnesses' % (scenario, n))


FRESH = re.compile(r'^(heap|loc|seq|exc|fam|@)')
WRITE = 'a read-only operation writes to '


class Frozen(Checker):
    """runs the scenarios of another check whose entry only has read access, with everything that exists before frozen"""

    def __init__(self, ck, module, entries):
        super().__init__(ck.pid, ('ub',), ck.verbose)
        self.cur = None
        self.module = module
        self.entries = entries
        self.ran = set()

    def prove(self, o, cond, what, tag='val'):
        return None

    def fail(self, o, what, tag='val'):
        if isinstance(what, str) and WRITE in what:
            self.obl += 1
            return super().prove(o, False, what, 'ub')
        return None

    def und(self, what, loc):
        super().und(what, loc)

    def run(self, scenario, mod, entry, st, args, models, allow=()):
        e = self.entries.get(entry)
        if e is None:
            # only needed for the states it leads to
            return super().run(scenario, mod, entry, st, args, models, allow) if self.module == 'sst' else []
        me = self.__dict__.get('make_engine')
        self.make_engine = self.freezing(me or (lambda m, M: Engine(m, M)), set(st.mem), e, args)
        self.obl += 1
        n0 = len(self.findings)
        try:
            outs = super().run(scenario, mod, entry, st, args, models, allow)
        finally:
            if me:
                self.make_engine = me
            else:
                del self.make_engine
        if len(self.findings) == n0:
            self.proved += 1
        self.ran.add(entry)
        return outs

    def freezing(self, base, before, results, args):
        out = {a.obj for i, a in enumerate(args) if i in results and hasattr(a, 'obj')}

        def frozen(name):
            name = str(name)
            return name[0] != '@' and name not in out and (name in before or not FRESH.match(name))

        def mk(m, M):
            eng = base(m, M)
            eng.frozen = frozen
            return eng
        return mk

    def observe(self, o, mod, entry, args, models):
        e = self.entries.get(entry)
        if e is None:
            yield from super().observe(o, mod, entry, args, models)
            return
        me = self.__dict__.get('make_engine')
        self.make_engine = self.freezing(me or (lambda m, M: Engine(m, M)), set(o.st.mem), e, args)
        self.obl += 1
        n0 = len(self.findings)
        try:
            outs = list(super().observe(o, mod, entry, args, models))
        finally:
            if me:
                self.make_engine = me
            else:
                del self.make_engine
        if len(self.findings) == n0:
            self.proved += 1
        self.ran.add(entry)
        yield from outs


def readonly(src):
    """entries of a harness that only get read access -> indices of parameters that are results"""
    d = ast.dump(src)
    r = {}
    for f in d['functions']:
        if not f['base'].startswith('h_'):
            continue
        res = set()
        for i, p in enumerate(f['params']):
            if p.endswith('&&') or p.endswith('&') and not p.startswith('const '):
                res = None
                break
            if p.endswith('*') and not p.startswith('const '):
                if i == 0 and f['ret'] == 'void':
                    res.add(i)
                else:
                    res = None
                    break
        if res is not None and (len(f['params']) > len(res)):
            r[f['base']] = res
    return r


MODULES = [('vec', ['vec.cpp']), ('str', ['str.cpp']), ('lst', ['lst.cpp'], 'L01'), ('lst', ['fls.cpp'], 'F01'), ('deq', ['deq.cpp']), ('que', ['que.cpp']), ('tre', ['set.cpp', 'map.cpp']), ('sst', ['sst.cpp']), ('cpx', ['cpx.cpp'])]


def run(ck):
    witnesses(ck, 'cst.cpp', 'what const access permits', 250)
    total = 0
    for m, srcs, *pid in MODULES:
        entries = {}
        for s in srcs:
            entries.update(readonly(s))
        if not entries:
            raise ir.Broken('no read-only entry in ' + m)
        f = Frozen(ck, m, entries)
        f.pid = pid[0] if pid else ck.pid
        try:
            importlib.import_module('sa.adts.' + m).run(f)
        except ir.Broken as e:
            # the other modules are still decided
            f.und('%s is not analysed: %s' % (m, e), '')
            f.broken = True
        ck.cur = 'read-only operations: ' + m
        for attr in ('obl', 'proved', 'loops', 'accel', 'insns'):
            setattr(ck, attr, getattr(ck, attr) + getattr(f, attr))
        ck.functions |= f.functions
        ck.lines |= f.lines
        ck.findings += f.findings
        ck.undecided += f.undecided
        ck.scen += f.scen
        total += len(f.ran)
        if ck.verbose:
            print(m, 'entries', len(entries), 'analysed', len(f.ran), 'obligations', f.obl, 'missing', sorted(set(entries) - f.ran))
        if len(f.ran) * 2 < len(entries) and not hasattr(f, 'broken'):
            raise ir.Broken('%s: only %d of %d read-only entries were analysed' % (m, len(f.ran), len(entries)))
