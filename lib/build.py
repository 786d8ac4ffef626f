"""Builds the library (and small C++ drivers) from /repo's current working tree into /verif/build."""
import hashlib, os, re, subprocess, sys, tempfile, fcntl, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CAPY_REPO', '/repo')
BUILD = os.environ.get('CAPY_BUILD', os.path.join(VERIF, 'build'))

CONFIGS = {
    # plain: functional oracles; asserts stay on (a failing assert is a crash)
    'plain': ['-O1', '-g1'],
    # asan: memory safety oracles
    'asan': ['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
             '-fsanitize=float-cast-overflow', '-fno-sanitize-recover=all', '-fno-sanitize=vptr,enum'],
    # pattern: other optimisation level, uninitialised locals hold a pattern
    'pattern': ['-O0', '-g1', '-ftrivial-auto-var-init=pattern'],
    'tsan': ['-O1', '-g1', '-fsanitize=thread'],
}
CXX = {'plain': 'g++', 'asan': 'g++', 'tsan': 'g++', 'pattern': 'g++'}


def _pkgs():
    out = subprocess.run(['pkg-config', '--cflags', '--libs', 'libpng', 'libjpeg', 'lcms2', 'libtiff-4', 'zlib',
                          'freetype2'], capture_output=True, text=True, check=True).stdout.split()
    return [x for x in out if x.startswith('-I')], [x for x in out if not x.startswith('-I')]


def version():
    t = open(os.path.join(REPO, 'meson.build')).read()
    m = re.search(r"version:\s*'([0-9.]+)'", t)
    v = m.group(1) if m else '0.0.0'
    a = (v.split('.') + ['0', '0', '0'])[:3]
    return v, a


def gen_header(dst):
    v, a = version()
    s = open(os.path.join(REPO, 'include', 'capypdf.h.in'), encoding='utf-8').read()
    d = {'CAPYPDF_VERSION_STR': '"%s"' % v, 'CAPYPDF_VERSION_MAJOR': a[0], 'CAPYPDF_VERSION_MINOR': a[1],
         'CAPYPDF_VERSION_MICRO': a[2]}
    s = re.sub(r'#mesondefine (\w+)', lambda m: ('#define %s %s' % (m[1], d[m[1]])) if m[1] in d else '/* #undef %s */' % m[1], s)
    os.makedirs(dst, exist_ok=True)
    for name, text in (('capypdf.h', s), ('capypdf.hpp', open(os.path.join(REPO, 'include', 'capypdf.hpp'), encoding='utf-8').read())):
        p = os.path.join(dst, name)
        if not os.path.exists(p) or open(p, encoding='utf-8').read() != text:
            open(p, 'w', encoding='utf-8').write(text)


def lib_sources():
    src = os.path.join(REPO, 'src')
    names = sorted(f for f in os.listdir(src) if f.endswith('.cpp') and not f.endswith('_fuzz.cpp'))
    return [os.path.join(src, f) for f in names]


def _hash_files(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        h.update(open(p, 'rb').read())
    return h.hexdigest()[:20]


def _headers():
    res = []
    for d in ('src', 'include'):
        for base, _d, files in os.walk(os.path.join(REPO, d)):
            res += [os.path.join(base, f) for f in files if f.endswith(('.hpp', '.h', '.h.in', '.inc'))]
    return res


def _run(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        sys.stderr.write('BUILD FAILED: %s\n%s\n' % (' '.join(cmd), r.stderr[-6000:]))
        raise SystemExit(3)


def build(config):
    """Returns the path of libcapypdf built with the given config from the current tree."""
    os.makedirs(BUILD, exist_ok=True)
    d = os.path.join(BUILD, config)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(BUILD, config + '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        inc = os.path.join(BUILD, 'include')
        gen_header(inc)
        cfl, libs = _pkgs()
        flags = ['-std=c++23', '-DBUILDING_CAPYPDF', '-D_GLIBCXX_ASSERTIONS', '-fPIC', '-fvisibility=hidden',
                 '-w', '-I', inc, '-I', os.path.join(REPO, 'src')] + cfl + CONFIGS[config]
        hh = _hash_files(_headers(), ' '.join(flags) + str(version()))
        objs, todo = [], []
        for s in lib_sources():
            k = _hash_files([s], hh)
            o = os.path.join(d, os.path.basename(s)[:-4] + '-' + k + '.o')
            objs.append(o)
            if not os.path.exists(o):
                todo.append((s, o))
        so = os.path.join(d, 'libcapypdf-%s.so' % hashlib.sha256(' '.join(objs).encode()).hexdigest()[:16])
        if os.path.exists(so):
            return so
        for f in os.listdir(d):
            p = os.path.join(d, f)
            if f.endswith('.so') or (f.endswith('.o') and p not in objs):
                os.unlink(p)

        def comp(so_):
            s, o = so_
            _run([CXX[config]] + flags + ['-c', s, '-o', o + '.tmp'])
            os.rename(o + '.tmp', o)
        # biggest first
        todo.sort(key=lambda x: -os.path.getsize(x[0]))
        with ThreadPoolExecutor(max_workers=8) as ex:
            list(ex.map(comp, todo))
        _run([CXX[config], '-shared', '-o', so + '.tmp'] + objs + CONFIGS[config] + libs)
        os.rename(so + '.tmp', so)
        return so


def build_prog(config, sources, name, extra=(), link_lib=True, defines=()):
    """Builds a C++/C program from /verif sources against the library of this config."""
    so = build(config)
    d = os.path.join(BUILD, config)
    inc = os.path.join(BUILD, 'include')
    cfl, libs = _pkgs()
    k = _hash_files(list(sources) + _headers(), so + ' '.join(extra) + ' '.join(defines))
    out = os.path.join(d, name + '-' + k)
    if os.path.exists(out):
        return out
    cmd = [CXX[config], '-std=c++23', '-w', '-I', inc, '-I', os.path.join(REPO, 'src')] + cfl + CONFIGS[config] + list(defines)
    cmd += list(sources) + ['-o', out + '.tmp']
    if link_lib:
        cmd += [so, '-Wl,-rpath,' + d]
    cmd += libs + list(extra)
    _run(cmd)
    os.rename(out + '.tmp', out)
    return out


def asan_env(leak=False):
    """Environment to load an asan-built library into python."""
    lib = subprocess.run(['g++', '-print-file-name=libasan.so'], capture_output=True, text=True).stdout.strip()
    std = subprocess.run(['g++', '-print-file-name=libstdc++.so'], capture_output=True, text=True).stdout.strip()
    return {
        'LD_PRELOAD': os.path.realpath(lib) + ':' + os.path.realpath(std),
        'ASAN_OPTIONS': 'detect_leaks=%d:abort_on_error=0:exitcode=99:halt_on_error=1:allocator_may_return_null=1:'
                        'detect_stack_use_after_return=0:malloc_context_size=12:max_allocation_size_mb=3000:handle_abort=1:'
                        'symbolize=1' % int(leak),
        'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1',
        'LSAN_OPTIONS': 'exitcode=0:print_suppressions=0',
        'PYTHONMALLOC': 'malloc',
    }


if __name__ == '__main__':
    for c in sys.argv[1:] or ['plain', 'asan']:
        print(build(c))
