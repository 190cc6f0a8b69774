"""The type-checked program: facts extracted from clang's AST by tools/astdump."""
import json, os, subprocess, concurrent.futures
from . import ir

FLAGS = ['-std=c++2a', '-DCONSTEXPR_CEST=1', '-I' + ir.REPO + '/include', '-I' + ir.VERIF + '/harness', '-w', '-xc++',
         '-resource-dir', '/usr/lib/llvm-18/lib/clang/18']


def dump(src, extra=()):
    t = ir.tool('astdump')

    def attempt(root):
        path = src if os.path.isabs(src) else os.path.join(root, src)
        r = subprocess.run([t, '/include/cest/,/verif/harness/,' + root + '/', path, '--'] + ['-I' + root] + FLAGS + ['-ferror-limit=0', '-ftemplate-backtrace-limit=0', '-fno-caret-diagnostics']
                           + list(extra), capture_output=True, text=True)
        return r.returncode, r.stderr, r.stdout
    if os.path.isabs(src):
        rc, err, out = attempt(os.path.join(ir.VERIF, 'harness'))
        if rc:
            raise ir.CompileError(err[-3000:])
        return json.loads(out)
    return json.loads(ir.masking(src, attempt))


def dump_all(srcs):
    ir.tool('astdump')
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        return dict(zip(srcs, ex.map(dump, srcs)))


def cest(path):
    return '/include/cest/' in path


def short(path):
    i = path.find('include/cest/')
    return path[i:] if i >= 0 else path


def headers():
    d = os.path.join(ir.REPO, 'include', 'cest')
    out = []
    for r, _, fs in os.walk(d):
        out += [os.path.relpath(os.path.join(r, f), d) for f in fs if f.endswith(('.hpp', '.h'))]
    return sorted(out)
