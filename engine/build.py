"""Compile /repo's translation units to IR and load the resolved program."""
import os, subprocess, json, tempfile, shutil, glob
from concurrent.futures import ThreadPoolExecutor
import absint

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
TOP = os.path.dirname(HERE)
LLVM = '/usr/lib/llvm-18/bin/'
IRDUMP = os.path.join(TOP, 'build', 'irdump')
_flags = None


def pkgflags():
    global _flags
    if _flags is None:
        p = subprocess.run(['pkg-config', '--cflags', 'glib-2.0', 'gobject-2.0'], capture_output=True, text=True)
        _flags = p.stdout.split()
        if p.returncode:
            raise absint.Broken('pkg-config failed')
    return _flags


def ensure_tool():
    if not os.path.exists(IRDUMP) or os.path.getmtime(IRDUMP) < os.path.getmtime(os.path.join(TOP, 'tool', 'irdump.cpp')):
        r = subprocess.run(['sh', os.path.join(TOP, 'tool', 'build.sh')], capture_output=True, text=True)
        if r.returncode:
            raise absint.Broken('cannot build irdump: ' + r.stderr[-500:])


def sources():
    return sorted(glob.glob(os.path.join(REPO, 'src', '*.c')))


def compile_one(args):
    src, out, defs = args
    ll = os.path.join(out, os.path.basename(src) + '.ll')
    cmd = [LLVM + 'clang', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fPIC', '-w', '-I' + os.path.join(REPO, 'include'),
           '-DGLIB_VERSION_MAX_ALLOWED=GLIB_VERSION_2_32', '-DGLIB_VERSION_MIN_REQUIRED=GLIB_VERSION_MAX_ALLOWED'] + pkgflags() + defs + \
          ['-S', '-emit-llvm', src, '-o', ll]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise absint.Broken('cannot compile %s: %s' % (src, p.stderr[-600:]))
    p = subprocess.run([LLVM + 'opt', '-S', '-passes=sroa', ll, '-o', ll + '2'], capture_output=True, text=True)
    if p.returncode:
        raise absint.Broken('opt failed on %s: %s' % (src, p.stderr[-600:]))
    p = subprocess.run([IRDUMP, ll + '2'], capture_output=True, text=True)
    if p.returncode:
        raise absint.Broken('irdump failed on %s: %s' % (src, p.stderr[-600:]))
    ms = json.loads(p.stdout)
    for m in ms:
        m['source'] = os.path.relpath(src, REPO)
    return ms


def load(names=None, defs=(), extra=()):
    ensure_tool()
    srcs = sources()
    if names is not None:
        srcs = [s for s in srcs if os.path.basename(s)[:-2] in names]
        miss = set(names) - set(os.path.basename(s)[:-2] for s in srcs)
        if miss:
            # a module may have been split or renamed: analyse everything
            srcs = sources()
    if names == []:
        srcs = []
    srcs = list(srcs) + [os.path.join(TOP, 'specs', 'witness', e) for e in extra]
    if not srcs:
        raise absint.Broken('no sources')
    d = tempfile.mkdtemp(prefix='gutilsa.')
    try:
        with ThreadPoolExecutor(8) as ex:
            mods = list(ex.map(compile_one, [(s, d, list(defs)) for s in srcs]))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return absint.Module([m for ms in mods for m in ms])
