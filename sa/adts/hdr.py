"""headers stand alone, combine and link: X01"""
import concurrent.futures, os, re, subprocess
from .. import ast, ir
from .ctx import Ast, harnesses, loc, sig, bare
from ..spec import Finding

# what a header provides, instantiated completely with nothing else included
INST = {
    'vector.hpp': 'template class cest::vector<int>;', 'deque.hpp': 'template class cest::deque<int>;', 'list.hpp': 'template class cest::list<int>;',
    'forward_list.hpp': 'template class cest::forward_list<int>;', 'queue.hpp': 'template class cest::queue<int>;', 'set.hpp': 'template class cest::set<int>;',
    'map.hpp': 'template class cest::map<int, int>;', 'memory.hpp': 'template class cest::unique_ptr<int>; cest::ostream &f(cest::ostream &o, cest::unique_ptr<int> &p) { return o << p; }',
    'shared_ptr.hpp': 'template class cest::shared_ptr<int>; cest::ostream &f(cest::ostream &o, cest::shared_ptr<int> &p) { return o << p; }',
    'string.hpp': 'template class cest::basic_string<char>; cest::ostream &f(cest::ostream &o, cest::string &p) { return o << p; }', 'functional.hpp': 'template class cest::function<int(int &)>; cest::function<int(int &)> f([](int &x) { return x; });',
    'complex.hpp': 'template class cest::complex<double>; using C = cest::complex<double>; C f(C a, C b) { return pow(a, b) + exp(a) * log(b) - sqrt(a) / sin(b) + cos(a) + tan(b) + sinh(a) + cosh(b) + tanh(a) + cest::polar(abs(a), arg(b)) + norm(a) + conj(b) + log10(a) + pow(a, 2) + pow(a, 2.0) + pow(2.0, a); }',
    'ios.hpp': 'template class cest::basic_ios<char>;', 'basic_ios.hpp': '', 'streambuf.hpp': 'template class cest::basic_streambuf<char, std::char_traits<char>>;',
    'ostream.hpp': 'cest::ostream &f(cest::ostream &o) { return (o << 1 << \'c\' << "s" << 2u << 3l << cest::hex << cest::endl).flush(); }',
    'iostream.hpp': 'void f() { cest::cout << 1 << \'c\' << "s" << cest::endl; char c; cest::cin.get(c); }',
    'istream.hpp': 'void f(cest::istream &i, char *p) { i.get(*p); i.read(p, 2); i.unget(); }',
    'sstream.hpp': 'void f(cest::istringstream &i, char *p) { i.get(*p); i.str(); }', 'swap.hpp': 'void f(int a, int b, int c) { nary::swap(a, b, c); nary::swapr(a, b, c); }',
    'cstdio.hpp': 'int f(char *p, cest::FILE *s) { cest::fclose(cest::fmemopen(p, 1, "r")); cest::fread(p, 1, 1, s); return cest::printf("a") + cest::printf("%d", 1) + cest::fprintf(cest::stdout, "b") + cest::fprintf(cest::stderr, "%d", 2); }',
    'cctype.hpp': 'int f(int c) { return cest::isupper(c) + cest::isalnum(c); }', 'cmath.hpp': 'double f(double x) { return cest::sqrt(x) + cest::exp(x) + cest::log(x) + cest::sin(x) + cest::cos(x) + cest::pow(x, x); }',
}
OWN = re.compile(r'^_ZN?K?(4cest|4nary)|^_ZNK?(4cest|4nary)|^_ZZNK?(4cest|4nary)')


def includes(hs):
    return ''.join('#include "cest/%s"\n' % h for h in hs)


def compile_text(cc, text):
    r = subprocess.run(cc + ['-std=c++2a', '-DCONSTEXPR_CEST=1', '-I' + ir.REPO + '/include', '-w', '-fsyntax-only', '-x', 'c++', '-'], input=text, capture_output=True, text=True)
    if r.returncode == 0:
        return None
    m = re.search(r'^(\S+?:\d+)(?::\d+)?: (?:fatal )?error: (.*)$', r.stderr, re.M)
    if r.returncode < 0 or not m:
        raise ir.Broken('the compiler failed: ' + r.stderr[-500:])
    return ast.short(m.group(1)), m.group(2)


def run(ck):
    thorough = os.environ.get('VERIF_TIER') == 'thorough'
    H = ast.headers()
    if len(H) < 10:
        raise ir.Broken('only %d headers found' % len(H))
    base = compile_text(['clang++-18'], 'int main() {}')
    if base:
        raise ir.Broken('the compiler does not work: %r' % (base,))
    jobs = []
    for h in H:
        jobs.append(('stands alone', h, includes([h]) + INST.get(h, '') + '\n'))
        jobs.append(('included twice', h, includes([h, h])))
        rest = [x for x in reversed(H) if x != h]
        jobs.append(('before all others', h, includes([h] + rest)))
        jobs.append(('after all others', h, includes(rest + [h]) + INST.get(h, '') + '\n'))
        if thorough:
            jobs += [('before ' + x, h, includes([h, x])) for x in rest]
    ccs = [['clang++-18']]
    if thorough:
        ccs.append(['g++'])
    work = [(cc, j) for cc in ccs for j in jobs if cc[0] != 'g++' or j[0] == 'stands alone' and not INST.get(j[1])]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda w: compile_text(w[0], w[1][2]), work))
    groups = {}
    for (cc, (kind, h, text)), r in zip(work, res):
        k = kind if not kind.startswith('before ') or kind == 'before all others' else 'pairs'
        groups.setdefault(k, []).append((h, kind, r))
    for k, xs in groups.items():
        A = Ast(ck, k)
        for h, kind, r in xs:
            A.ob(r is None, (h, kind), '%s, %s: %s' % (h, kind, r and r[1]), r and r[0])
        A.done(10)
    # definitions in headers
    D = ast.dump_all(harnesses())
    A = Ast(ck, 'functions defined in headers are inline, templates or internal')
    for d in D.values():
        for f in d['functions'] + d['patterns']:
            if not ast.cest(f['file']) or not f['defined'] or f['implicit'] or f.get('guide') or f.get('lambda'):
                continue
            ok = f['inline'] or 'id' not in f or f['constexpr'] or f.get('internal') or f['tsk'] in (1, 3, 4) or f.get('deleted')
            A.ob(ok, (f['file'], f['line'], f['base']), '%s is defined in every translation unit that includes it' % sig(f), loc(f))
    A.done(300)
    A = Ast(ck, 'variables defined in headers are inline, constexpr, templates or internal')
    for d in D.values():
        for v in d['vars']:
            if not ast.cest(v['file']) or not v['def'] or v['local']:
                continue
            ok = v['inline'] or not v['external'] or v['tsk'] in (1, 3, 4)
            A.ob(ok, (v['file'], v['line'], v['name']), '%s is defined in every translation unit that includes it' % bare(v['name']), loc(v))
    A.done(5)
    # everything used has a definition
    def undefined(src):
        r = subprocess.run(ir.CXX + ['-O0', '-S', '-emit-llvm', os.path.join(ir.VERIF, 'harness', src), '-o', '-'], capture_output=True, text=True)
        if r.returncode:
            raise ir.CompileError(r.stderr[-2000:])
        names = re.findall(r'^declare .*?@"?([\w.$]+)"?\(', r.stdout, re.M) + re.findall(r'^@"?([\w.$]+)"? = external ', r.stdout, re.M)
        defs = len(re.findall(r'^define .*?@"?(_ZN?K?(?:4cest|4nary)[\w.$]*)', r.stdout, re.M))
        return [n for n in names if OWN.match(n)], defs
    A = Ast(ck, 'what the headers use of the library is defined by them')
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        und = list(ex.map(undefined, harnesses()))
    for src, (names, defs) in zip(harnesses(), und):
        A.n += defs
        ck.obl += defs
        ck.proved += defs
        for n in names:
            d = subprocess.run(['c++filt', n], capture_output=True, text=True).stdout.strip()
            A.ob(False, n, '%s is used but not defined' % d, src)
    A.done(300)
