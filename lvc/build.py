"""Mechanical extraction: clang front end on the real source, no optimisation
(mem2reg and loop-simplify only), parse.  What it drops: log macros (the
stub ulog.h), debug info, the preprocessor branches not taken on
x86-64 Linux."""
import os, subprocess, tempfile, hashlib, shutil
from .ir import parse_module
REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
class BuildError(Exception): pass
_cache = {}
def module(src, extra=(), text=None):
    """src: path relative to REPO (or a harness file under /verif/harness)"""
    key = (src, tuple(extra))
    if key in _cache: return _cache[key]
    path = src if os.path.isabs(src) else os.path.join(REPO, src)
    d = tempfile.mkdtemp(prefix='lvc')
    try:
        ll, opt = os.path.join(d, 'a.ll'), os.path.join(d, 'b.ll')
        cxx = path.endswith('.cpp')
        cmd = ['clang-18', '-S', '-emit-llvm', '-O0', '-Xclang', '-disable-O0-optnone', '-gline-tables-only', '-fno-discard-value-names', '-fno-builtin',
               '-U_FORTIFY_SOURCE', '-w', '-fno-stack-protector', '-I', os.path.join(HERE, 'stub'), '-I', os.path.join(REPO, 'include'), '-I', os.path.join(REPO, 'src'), *extra, path, '-o', ll]
        if cxx: cmd[1:1] = ['-fno-exceptions', '-std=c++11']
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode: r = subprocess.run(cmd[:1] + ['-D_GNU_SOURCE'] + cmd[1:], capture_output=True, text=True)
        if r.returncode: raise BuildError('clang failed on %s:\n%s' % (src, r.stderr[-2000:]))
        r = subprocess.run(['opt-18', '-S', '-passes=mem2reg,loop-simplify', ll, '-o', opt], capture_output=True, text=True)
        if r.returncode: raise BuildError('opt failed: ' + r.stderr[-2000:])
        M = parse_module(open(opt).read())
    finally:
        shutil.rmtree(d, ignore_errors=True)
    M.src = src
    _cache[key] = M
    return M
