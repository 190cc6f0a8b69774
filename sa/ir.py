"""Build the harness translation units from the current tree and load their IR."""
import json, os, re, shutil, threading, subprocess, hashlib, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CEST_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')


class Broken(Exception):
    """the analysis itself cannot run (error exit, never a verdict)"""


def tool(name):
    p = os.path.join(BUILD, name)
    src = os.path.join(VERIF, 'tools', name + '.cpp')
    if not os.path.exists(p) or os.path.getmtime(p) < os.path.getmtime(src):
        r = subprocess.run(['make', '-C', os.path.join(VERIF, 'tools'), '../build/' + name],
                           capture_output=True, text=True)
        if r.returncode:
            raise Broken('cannot build %s:\n%s' % (name, r.stderr[-2000:]))
    return p


CXX = ['clang++-18', '-std=c++2a', '-DCONSTEXPR_CEST=1', '-fsized-deallocation', '-I' + REPO + '/include',
       '-I' + VERIF + '/harness', '-w']


EXTRA = []      # further compiler flags for every harness (K02)


class CompileError(Exception):
    pass


MASKED = {}       # harness files some entries of which do not compile: [(the entry, the error)]


def blamed(err, root):
    """lines of the harness the errors of a failed compilation come from"""
    out = set()
    for b in re.split(r'(?m)^(?=\S[^\n]*?:\d+:\d+: (?:fatal )?error: )', err):
        if not re.match(r'\S+?:\d+:\d+: (?:fatal )?error: ', b):
            continue
        at = re.findall(r'(?m)^(\S*?):(\d+):\d+: (?:(?:fatal )?error:|note: (?:in instantiation|while|expanded from|in implicit|in evaluation))', b)
        at = [(f, int(n)) for f, n in at if os.path.dirname(os.path.abspath(f)) == root]
        if not at:
            return None
        out.add(at[-1])
        # a use inside a macro: the line that expands it
        out.update(x for x in at if x != at[-1])
    return out


def masking(src, attempt):
    """attempt(directory of the harness) -> (return code, errors, result).  Entries of the harness that do not
    compile against the current tree are left out, the others are still analysed."""
    root = os.path.join(VERIF, 'harness')
    rc, err, res = attempt(root)
    if not rc:
        return res
    first = err
    tmp = os.path.join(BUILD, 'masked.%d.%d' % (os.getpid(), threading.get_ident() % 100003))
    shutil.rmtree(tmp, ignore_errors=True)
    try:
        cur = os.path.join(tmp, 'harness')
        shutil.copytree(root, cur)
        gone = []
        for attempt_no in range(6):
            where = blamed(err, root if attempt_no == 0 else cur)
            n = 0
            for f, l in where or ():
                f = os.path.join(cur, os.path.basename(f))
                t = open(f).read().split('\n')
                line = t[l - 1]
                if re.match(r'^[A-Za-z].*\bh_\w+\(.*\}\s*$', line) or re.match(r'^[A-Z]+\(.*\)\s*$', line):
                    t[l - 1] = ''
                    gone.append(line.strip())
                    open(f, 'w').write('\n'.join(t))
                    n += 1
            if not n:
                break
            rc, err, res = attempt(cur)
            if not rc:
                MASKED[src] = [(g, first) for g in gone]
                return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    raise CompileError(first[-3000:])


def rejected():
    """operations of the harnesses used that both compilers reject: -> [(entry, file, error)]"""
    out = []
    for src, gone in sorted(MASKED.items()):
        r = subprocess.run(['g++', '-std=c++2a', '-DCONSTEXPR_CEST=1', '-I' + REPO + '/include', '-I' + os.path.join(VERIF, 'harness'), '-w',
                            '-fsyntax-only', os.path.join(VERIF, 'harness', src)], capture_output=True, text=True)
        if r.returncode == 0:
            continue
        err = re.findall(r'(?m)^(\S+?:\d+):\d+: (?:fatal )?error: (.*)$', gone[0][1])
        inside = [(l, m) for l, m in err if '/cest/' in l] or err
        for g, _ in gone:
            m = re.search(r'\bh_(\w+)\(', g)
            out.append((m.group(1) if m else g[:60], 'harness/' + src, '%s: %s' % (inside[0][0].replace(REPO + '/', ''), inside[0][1]) if inside else '?'))
    return out


def compile_ir(src, flags=(), inline=True):
    """compile harness/<src> and return the dumped module"""
    os.makedirs(BUILD, exist_ok=True)
    dump = tool('irdump')
    bc = os.path.join(BUILD, '%s.%d.%d.bc' % (src.replace('/', '_'), os.getpid(), threading.get_ident() % 100003))

    def attempt(root):
        r = subprocess.run(CXX[:-2] + ['-I' + root] + CXX[-1:] + ['-O1', '-Xclang', '-disable-llvm-passes', '-g', '-ferror-limit=0', '-ftemplate-backtrace-limit=0', '-fno-caret-diagnostics',
                           '-emit-llvm', '-c', os.path.join(root, src), '-o', bc] + list(flags) + EXTRA, capture_output=True, text=True)
        return r.returncode, r.stderr, root
    try:
        root = masking(src, attempt)
        r = subprocess.run([dump, bc, 'h_'] + ([] if inline else ['noinline']), capture_output=True, text=True)
        if r.returncode:
            raise Broken('irdump failed: ' + r.stderr[-2000:])
        m = Module(json.loads(r.stdout))
        m.masked = src in MASKED
        return m
    finally:
        if os.path.exists(bc):
            os.unlink(bc)


class Loop:
    def __init__(self, d, parent=None):
        self.header = d['header']
        self.latch = d['latch']
        self.blocks = frozenset(d['blocks'])
        self.parent = parent
        self.sub = [Loop(s, self) for s in d['sub']]

    def all(self):
        yield self
        for s in self.sub:
            yield from s.all()


class Func:
    def __init__(self, d):
        self.d = d
        self.name = d['name']
        self.blocks = {b['id']: b['ins'] for b in d['blocks']}
        self.entry = d['blocks'][0]['id']
        self.loops = [Loop(l) for l in d['loops']]
        self.header = {}
        for l in self.loops:
            for x in l.all():
                self.header[x.header] = x
        self.params = d['params']
        self.loopdefs = {}
        self.types = {i['id']: i['ty'] for b in d['blocks'] for i in b['ins'] if 'ty' in i}
        self.nins = sum(len(b['ins']) for b in d['blocks'])


class Module:
    masked = False

    def __init__(self, d):
        self.funcs = {f['name']: Func(f) for f in d['functions']}
        self.globals = {g['name']: g for g in d['globals']}
        self.declares = d['declares']
        self.types = d['types']
        self.tid = {t['id']: t for t in d['types'] if t['id']}

    def type(self, name):
        c = [t for t in self.types if t['name'] == name]
        if not c:
            raise Broken('type %s not found' % name)
        return c[0]

    def type_prefix(self, name, pred=None):
        c = [t for t in self.types if t['name'] == name or t['name'].startswith(name + '<')]
        if pred:
            c = [t for t in c if pred(t)]
        return c

    def members(self, t, base=0):
        """flattened (name, offset, size, member) including bases"""
        out = []
        for m in t['members']:
            if m['name'] == '<base>':
                b = self.tid.get(m.get('tid', ''))
                if b:
                    out += self.members(b, base + m['off'])
            else:
                out.append((m['name'], base + m['off'], m['size'], m))
        return out

    def field(self, t, name):
        for n, o, s, m in self.members(t):
            if n == name:
                return o
        raise Broken('field %s of %s not found' % (name, t['name']))


def locstr(ins):
    ls = ins.get('loc') or []
    best = None
    for f, l, fn in ls:
        if '/include/cest/' in f or f.startswith('cest/'):
            best = (f, l, fn)
            break
    if best is None and ls:
        best = ls[0]
    if best is None:
        return '?'
    f = best[0]
    i = f.find('include/cest/')
    if i >= 0:
        f = f[i:]
    return '%s:%d (%s)' % (f, best[1], best[2])
