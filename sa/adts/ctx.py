"""constant evaluation closure: K01"""
import glob
from .. import ast, ir
from ..spec import Finding


def exempt(c):
    return c.get('throwing') or c.get('noreturn')


class Ast:
    """obligations over facts of the type-checked program"""

    def __init__(self, ck, scenario):
        self.ck = ck
        ck.cur = scenario
        self.scenario = scenario
        self.n = 0
        self.seen = set()

    def ob(self, ok, key, what, loc):
        """one obligation; the key identifies it across translation units"""
        if key in self.seen:
            return
        self.seen.add(key)
        self.n += 1
        self.ck.obl += 1
        if ok:
            self.ck.proved += 1
        else:
            self.ck.findings.append(Finding(self.scenario, what, loc, {}, 'refuted'))
            if self.ck.verbose:
                print('   REFUTED', self.scenario, what, loc)

    def done(self, minimum=1):
        self.ck.scen.append({'scenario': self.scenario, 'obligations': self.n})
        if self.n < minimum and not self.ck.findings:
            raise ir.Broken('%s: %d instances found, expected at least %d' % (self.scenario, self.n, minimum))


def harnesses():
    return sorted(f.split('/')[-1] for f in glob.glob(ir.VERIF + '/harness/*.cpp') if not f.endswith('/x_.cpp'))


def loc(f):
    return '%s:%d (%s)' % (ast.short(f['file']), f['line'], f.get('name') or f.get('base'))


def public(f):
    n = f['name']
    segs = [s for s in n.replace('(anonymous', '').split('::')]
    if f['access'] in (1, 2) or f.get('lambda') or f.get('guide') or f['deleted'] or '(lambda' in n or '(anonymous' in n:
        return False
    if f['base'].startswith('_') or any(s.startswith('_') for s in segs) or 'impl' in segs:
        return False
    return True


def run(ck):
    ir_srcs = harnesses()
    D = ast.dump_all(ir_srcs)
    # 1. declared constexpr
    # helpers that are only called where evaluation is known to be at run time need not be
    A = Ast(ck, 'declared constexpr')
    rt, ce = set(), set()
    for d in D.values():
        for f in d['functions']:
            if ast.cest(f['file']) and 'ce' in f:
                key = lambda c: (c['file'], c['dline'])
                a = {key(c) for c in f['ce']['calls'] if 'name' in c}
                ce |= a
                rt |= {key(c) for c in f['rt']['calls'] if 'name' in c} - a
    only_rt = rt - ce
    for h, d in D.items():
        for f in d['functions'] + d['patterns']:
            if not ast.cest(f['file']) or f['implicit'] or not public(f):
                continue
            if not f['constexpr'] and (f['file'], f['line']) in only_rt:
                continue
            if f.get('defaulted') and not f['constexpr'] and h != 'inst.cpp':
                continue    # a defaulted function is constexpr unless a member of a harness type is not
            A.ob(f['constexpr'], (f['file'], f['line'], f['base']), '%s is not constexpr' % sig(f), loc(f))
    A.done(300)
    # 2. everything a constexpr function calls during constant evaluation is constexpr
    B = Ast(ck, 'calls during constant evaluation')
    G = Ast(ck, 'constructs not allowed in constant evaluation')
    for h, d in D.items():
        for f in d['functions']:
            if not ast.cest(f['file']) or not f['constexpr'] or 'ce' not in f:
                continue
            ck.functions.add(f['name'])
            for c in f['ce']['calls']:
                if c['kind'] in ('indirect', 'newexpr', 'deleteexpr') or '/harness/' in c['file'] or exempt(c):
                    continue
                if c.get('implicit') and ast.cest(c['file']) and not c['constexpr'] and h != 'inst.cpp':
                    continue    # implicit members are constexpr unless those of a harness type are not
                ok = c['constexpr']
                key = (f['file'], f['base'], f['line'], c['at'], c['name'] if not ok else c['name'].split('<')[0])
                B.ob(ok, key, '%s calls %s, which is not constexpr' % (sig(f), bare(c['name'])), '%s:%d (%s)' % (ast.short(c['atfile']), c['at'], f['name']))
            bad = f['ce']['bad']
            G.ob(not bad, (f['file'], f['line'], f['base'], tuple(b['what'] for b in bad)), '%s: %s' % (sig(f), '; '.join(sorted({b['what'] for b in bad}))), loc(f) if not bad else '%s:%d (%s)' % (ast.short(bad[0]['file']), bad[0]['at'], f['name']))
    B.done(500)
    G.done(300)
    # 3. classes can be literal types
    C = Ast(ck, 'literal classes')
    for r in D['inst.cpp']['records']:
        if ast.cest(r['file']) and not r['lambda']:
            C.ob(r['literal'] and r['cxdtor'], r['name'], '%s is not a literal class' % bare(r['name']), loc(r))
    C.done(25)


def bare(n):
    out, k = '', 0
    for c in n:
        if c == '<' and not out.endswith('operator') and not out.endswith('operator<'):
            k += 1
        if not k:
            out += c
        if c == '>' and k:
            k -= 1
    return out


def sig(f):
    return '%s [%s]' % (bare(f['name']), ast.short(f['file']).split('/')[-1])
