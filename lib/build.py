"""Builds the monitored (sanitizer- and assertion-instrumented) products from /repo's working tree.

The sources are mirrored by content into /verif/build/<kind>/src, so that an unchanged file keeps its time stamp and
ninja only rebuilds what /repo's tree really changed; nothing is ever written below /repo.
"""
import fcntl, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CLAZY_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
LLVM = '/usr/lib/llvm-20'
RTDIR = '/usr/lib/llvm-18/lib/clang/18/lib/linux'

COMMON = ['-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS', '-Wno-everything']
KINDS = {
    # No NDEBUG: clazy's own asserts, and those of the clang/LLVM inline headers it calls, stay on.
    'mon': ['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize=vptr,function', '-shared-libasan'],
    'tsan': ['-O1', '-g1', '-fsanitize=thread', '-shared-libsan'],
}
# NB: "-Wno-everything" only keeps the build log small.


class BuildError(Exception):
    pass


def _mirror(dst):
    os.makedirs(dst, exist_ok=True)
    # -c: decide by content; no -t: a changed file gets a fresh time stamp.
    cmd = ['rsync', '-rlpc', '--delete', '--delete-excluded',
           '--exclude=/.git', '--exclude=/_build', '--exclude=/build*', '--exclude=/tests', '--exclude=__pycache__',
           REPO + '/', dst + '/']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError('mirroring /repo failed: ' + r.stderr)
    # CMakeLists.txt refers to tests only for ctest registration; keep an empty folder there.
    os.makedirs(os.path.join(dst, 'tests'), exist_ok=True)


def _cmake(src, out, kind):
    cmd = ['cmake', '-S', src, '-B', out, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=None',
           '-DCMAKE_C_COMPILER=clang-18', '-DCMAKE_CXX_COMPILER=clang++-18',
           '-DLLVM_ROOT=' + LLVM, '-DCLAZY_BUILD_CLANG_TIDY=ON', '-DCLAZY_MAN_PAGE=OFF', '-DGIT_EXECUTABLE=OFF',
           '-DBUILD_TESTING=OFF',
           '-DCMAKE_CXX_FLAGS=' + ' '.join(COMMON + KINDS[kind])]
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def _build(kind, log):
    base = os.path.join(BUILD, kind)
    src = os.path.join(base, 'src')
    _mirror(src)
    out = os.path.join(base, 'out')
    env = dict(os.environ)
    env.pop('CXXFLAGS', None)
    env['PATH'] = LLVM + '/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
    r = _cmake(src, out, kind)
    log.write(r.stdout)
    if r.returncode != 0:
        return None
    r = subprocess.run(['ninja', '-C', out, 'ClazyPlugin', 'clazy-standalone', 'ClazyClangTidy'],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    log.write(r.stdout)
    if r.returncode != 0:
        return None
    return out


class Products:
    def __init__(self, kind, out):
        self.kind = kind
        self.out = out
        self.plugin = out + '/lib/ClazyPlugin.so'
        self.tidy = out + '/lib/ClazyClangTidy.so'
        self.standalone = out + '/bin/clazy-standalone'
        self.wrapper = out + '/clazy'
        for f in (self.plugin, self.tidy, self.standalone):
            if not os.path.exists(f):
                raise BuildError('missing product ' + f)


def ensure(kind='mon'):
    pre = os.environ.get('VERIF_PREBUILT')   # for development: long runs on a frozen copy of the products
    if pre and kind == 'mon':
        p = Products(kind, pre)
        p.seconds = 0
        return p
    base = os.path.join(BUILD, kind)
    os.makedirs(base, exist_ok=True)
    t0 = time.time()
    with open(os.path.join(base, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        with open(os.path.join(base, 'build.log'), 'w') as log:
            out = _build(kind, log)
        if out is None:
            with open(os.path.join(base, 'build.log')) as f:
                tail = f.read()[-4000:]
            raise BuildError('the instrumented build (%s) failed:\n%s' % (kind, tail))
    p = Products(kind, out)
    p.seconds = time.time() - t0
    return p


if __name__ == '__main__':
    for k in (sys.argv[1:] or ['mon']):
        p = ensure(k)
        print('built %s in %.1fs: %s' % (k, p.seconds, p.out))
