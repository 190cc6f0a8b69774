"""user-supplied customisation points are the ones used: B01"""
import importlib, os, re, subprocess
from .. import ast, ir
from ..spec import *
from .itp import Everything, take

BIG = 1 << 40
SRC = 'arc.cpp'
GLOBAL = re.compile(r'^_Z(nw|na|dl|da)|^(malloc|calloc|realloc|free|aligned_alloc|posix_memalign)$')
COMPARE = re.compile(r'^_ZN?K?(1E)?(lt|gt|le|ge|eq|ne|ss)(E?RKS?_?1?E|RK1E)')
# harness, a part of the name the exempt entries have (comparison of contents)
CONTAINERS = [('vec.cpp', r'^h_(eq|ne)$', 40), ('deq.cpp', None, 40), ('lst.cpp', None, 40), ('fls.cpp', None, 25), ('set.cpp', None, 25), ('map.cpp', None, 30), ('als.cpp', None, 30)]


def archetypes(ck):
    path = os.path.join(ir.VERIF, 'harness', 'types', SRC)
    lines = open(path).read().split('\n')
    at = []         # (line, witness)
    for i, l in enumerate(lines):
        m = re.match(r'W\((\w+)\)\(', l)
        if m:
            at.append((i + 1, m.group(1)))
    ck.cur = 'minimal element types'
    r = subprocess.run(['clang++-18'] + ast.FLAGS + ['-I' + ir.VERIF + '/harness', '-Wno-everything', '-fsyntax-only', '-ferror-limit=0',
                        '-ftemplate-backtrace-limit=0', '-fno-caret-diagnostics', path], capture_output=True, text=True)
    if r.returncode < 0 or r.returncode and ' error: ' not in r.stderr:
        raise ir.Broken('the compiler failed: ' + r.stderr[-500:])
    bad = {}
    # an error and the notes that follow it
    for b in re.split(r'(?m)^(?=\S[^\n]*?:\d+:\d+: (?:fatal )?error: )', r.stderr):
        m = re.match(r'(\S+?):(\d+):\d+: (?:fatal )?error: ([^\n]*)', b)
        if not m:
            continue
        user = re.findall(r'(?m)^\S*' + re.escape(SRC) + r':(\d+):\d+: (?:note: in instantiation|note: while|(?:fatal )?error)', b)
        w = None
        if user:
            n = int(user[-1])
            w = [x for ln, x in at if ln == n] or [x for ln, x in at if ln <= n][-1:]
        w = w[0] if w else '(header)'
        bad.setdefault(w, ('%s: %s' % (w, m.group(3)), '%s:%s' % (ast.short(m.group(1)), m.group(2))))
    ck.obl += len(at)
    ck.proved += max(0, len(at) - len(bad))
    for what, loc in bad.values():
        ck.findings.append(Finding(ck.cur, 'requires more of its element type: ' + what, loc, {}, 'refuted'))
        if ck.verbose:
            print('   REFUTED', ck.cur, what, loc)
    ck.scen.append({'scenario': ck.cur, 'obligations': len(at)})
    if len(at) < 50:
        raise ir.Broken('only %d archetype witnesses' % len(at))


def reach(mod, name):
    """external functions reachable from name: callee -> (caller, location) of a call"""
    seen, todo, ext = {name}, [name], {}
    frm = {name: ('', '')}

    def where(f, i):
        """the innermost place in the library the call comes from"""
        loc = ir.locstr(i)
        while 'include/cest/' not in loc and frm.get(f, ('',))[0]:
            f, loc = frm[f]
        return f, loc
    while todo:
        f = mod.funcs[todo.pop(0)]
        for b in f.blocks.values():
            for i in b:
                if i['op'] not in ('call', 'invoke'):
                    continue
                fn = i.get('fn')
                if not fn or fn[0] not in ('f', 'g'):
                    ext.setdefault('an unknown function', where(f.name, i))
                    continue
                c = fn[1]
                if c in mod.funcs:
                    if c not in seen:
                        seen.add(c)
                        frm[c] = where(f.name, i)
                        todo.append(c)
                elif not c.startswith('llvm.'):
                    ext.setdefault(c, where(f.name, i))
    return seen, ext


def calls(ck):
    """call graph of every container with an allocator and an order of the user's"""
    for src, exempt, least in CONTAINERS:
        mod = ir.compile_ir(src, inline=False)
        entries = [n for n in mod.funcs if n.startswith('h_')]
        ck.cur = 'calls reachable in ' + src
        n0 = ck.obl
        for e in sorted(entries):
            seen, ext = reach(mod, e)
            ck.functions |= seen
            for rule, pat, no in (('obtains or releases storage other than through its allocator', GLOBAL, None), ('compares elements with their own operators', COMPARE, exempt)):
                ck.obl += 1
                if no and re.match(no, e):
                    ck.proved += 1
                    continue
                hit = [(c, w) for c, w in sorted(ext.items()) if pat.search(c)]
                if not hit:
                    ck.proved += 1
                    continue
                c, (f, loc) = hit[0]
                ck.findings.append(Finding(ck.cur, '%s: calls %s' % (rule, c), loc, {'entry': e, 'in': f}, 'refuted'))
                if ck.verbose:
                    print('   REFUTED', e, rule, c, loc)
        ck.scen.append({'scenario': ck.cur, 'obligations': ck.obl - n0})
        if len(entries) < least:
            raise ir.Broken('%s: only %d entries' % (src, len(entries)))


CHARS = re.compile(r'^_ZNSt11char_traitsI\w+E(7compare|4find|6length|2eqE|2ltE)|^(memcmp|bcmp|memchr|rawmemchr|strn?cmp|strlen|strn?chr|strstr|memmem|str[cp]*spn|wmem\w+|wcs\w+)$'
                   r'|^_ZN?K?St\w*?(5equal|23lexicographical_compare|6search|4find|8find_end)I')
TRAITS = re.compile(r'^_ZN2TR\d(compare|find|length|eq|lt)')
# entries whose result depends on which characters are the same
LOOKS = re.compile(r'^h_(compare|eq|ne|lt|find|zeq|zne|zlt)')
LENGTH = re.compile(r'^h_(cstr|assigncs|comparez|eqz|zeq|nez|zne|ltz|zlt|findz)')


def traits(ck):
    """a string with traits of the user's looks at characters with these alone"""
    mod = ir.compile_ir('trs.cpp', inline=False)
    entries = sorted(n for n in mod.funcs if n.startswith('h_'))
    ck.cur = 'calls reachable in trs.cpp'
    n0 = ck.obl
    for e in entries:
        seen, ext = reach(mod, e)
        ck.functions |= seen

        def bad(what, loc):
            ck.findings.append(Finding(ck.cur, what, loc, {'entry': e}, 'refuted'))
            if ck.verbose:
                print('   REFUTED', e, what, loc)
        ck.obl += 1
        hit = [c for c in sorted(set(ext) | seen) if CHARS.search(c)]
        if hit:
            loc = ext[hit[0]][1] if hit[0] in ext else caller(mod, seen, hit[0])
            bad('looks at characters other than through its traits: calls %s' % hit[0], loc)
        else:
            ck.proved += 1
        used = {m.group(1) for m in map(TRAITS.match, ext) if m}
        for pat, need, what in ((LOOKS, {'compare', 'find', 'eq', 'lt'}, 'compares or searches characters without its traits'), (LENGTH, {'length', 'eq', 'find'}, 'measures a C string without its traits')):
            if not pat.match(e):
                continue
            ck.obl += 1
            if used & need or 'an unknown function' in ext:
                ck.proved += 1
            else:
                bad(what, ir.locstr(next(i for b in mod.funcs[e].blocks.values() for i in b)) or 'include/cest/string.hpp')
    ck.scen.append({'scenario': ck.cur, 'obligations': ck.obl - n0})
    if len(entries) < 50:
        raise ir.Broken('trs.cpp: only %d entries' % len(entries))


def caller(mod, seen, callee):
    for f in sorted(seen):
        for b in mod.funcs[f].blocks.values():
            for i in b:
                if i['op'] in ('call', 'invoke') and i.get('fn') and i['fn'][1] == callee and 'include/cest/' in ir.locstr(i):
                    return ir.locstr(i)
    return 'include/cest/string.hpp'


def ident(v):
    if isinstance(v, Ptr) and v.obj is None:
        return 'the default allocator'
    if isinstance(v, Ptr) and v.obj in ('first', 'second') and v.off == ZERO:
        return 'the %s allocator' % v.obj
    raise Lost('allocation through an allocator of unknown identity')


def alloc_id(eng, st, args, ins):
    n = args[1]
    if not isinstance(n, Lin):
        raise Lost('allocation of %r bytes' % (n,))
    who = ident(args[0])
    st.log += (('alloc', who),)
    return eng.alloc(st, eng.norm(st, n, 64, False), who)


def dealloc_id(eng, st, args, ins):
    n = args[2]
    who = ident(args[0])
    if args[1] == NULL:
        Mem.require(st, eq0(n), 'deallocation of a null pointer with a non-zero count')
        return RAW
    eng.dealloc(st, args[1], who, eng.norm(st, n, 64, False))
    return RAW


def identity(ck):
    """storage comes from the allocator a container is constructed with, and goes back to the one it came from"""
    mod = ir.compile_ir('sta.cpp')
    M = base_models()
    M.update(E_models())
    M['ext_alloc_id'] = alloc_id
    M['ext_dealloc_id'] = dealloc_id
    entries = sorted(n for n in mod.funcs if n.startswith('h_'))
    for e in entries:
        st = State()
        st.mem['first'] = Flat('ext', 8, {})
        st.mem['second'] = Flat('ext', 8, {})
        st.mem['a'] = Flat('ro', 8, {0: (8, Ptr('first'))})
        st.mem['b'] = Flat('ro', 8, {0: (8, Ptr('second'))})
        st.mem['x'] = Flat('ro', 8, {0: (8, Term('x', (), 'E'))})
        n = Lin.sym('n')
        st.cons = st.cons.add(n).add(BIG - n)
        st.mem['p'] = Arr('ro', 'lin', 1, n + 1, {0: (1, ((ZERO, n, Term('p', (Lin.sym(IDX),), 8)), (n, n + 1, ZERO)))}, True)
        two = e.endswith('_assign') or 'moveassign' in e or 'swap' in e
        n0 = ck.obl
        outs = ck.returns(ck.run('allocator given to a constructor: ' + e, mod, e, st, [Ptr('a'), Ptr('b'), Ptr('x'), Ptr('p'), n], M))
        for o in outs:
            used = {x[1] for x in o.st.log if x[0] == 'alloc'}
            ok = used <= {'the first allocator', 'the second allocator'} if two else used <= {'the first allocator'}
            if not two and not used:
                ok = True if 'room' in e or 'resize' in e else False
            ck.prove(o, ok is not False, 'storage comes from %s' % (' and '.join(sorted(used)) or 'nowhere'), 'val')
            for k, ob in o.st.mem.items():
                if ob.kind == 'heap' and ob.tag != 'exc' and ob.alive is True:
                    ck.fail(o, 'storage is not given back', 'life')
        if ck.verbose:
            print(e, len(outs), ck.obl - n0)
    if len(entries) < 18:
        raise ir.Broken('only %d constructors with an allocator' % len(entries))


class Own(Checker):
    """the scenarios of shared_ptr that have a deleter of the user's"""

    def __init__(self, ck):
        super().__init__('H01', (), ck.verbose)
        self.tags = Everything()
        self.ran = set()

    def run(self, scenario, mod, entry, st, args, models, allow=()):
        if 'own deleter' not in scenario and 'deleter' not in scenario:
            return []
        self.ran.add(scenario)
        return super().run(scenario, mod, entry, st, args, models, allow)


def run(ck):
    archetypes(ck)
    calls(ck)
    traits(ck)
    identity(ck)
    f = Own(ck)
    importlib.import_module('sa.adts.sptr').run(f)
    take(ck, f, 'shared_ptr with a deleter', 20)
