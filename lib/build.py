"""Builds CAPI's sources (from the current tree of /repo) with a harness into a cached executable."""
import glob, hashlib, os, shutil, signal, subprocess, sys, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CAPI_REPO', '/repo')
CACHE = os.path.join(VERIF, '.build')
S2 = ['/usr/lib/x86_64-linux-gnu/libs2.so']
CXX = '/usr/bin/g++'


def end_children():
    """Ends whatever this process started and is still running: nobody waits for a pipe that is left open"""
    of = {}
    for p in os.listdir('/proc'):
        if p.isdigit():
            try:
                with open('/proc/%s/stat' % p) as f:
                    of.setdefault(int(f.read().rsplit(')', 1)[1].split()[1]), []).append(int(p))
            except OSError:
                pass
    todo = list(of.get(os.getpid(), []))
    while todo:
        p = todo.pop()
        todo += of.get(p, [])
        try:
            os.kill(p, signal.SIGKILL)
        except OSError:
            pass


def die(msg):
    print('CHECK-ERROR: ' + msg)
    sys.stdout.flush()
    end_children()
    os._exit(2)


def code_dir():
    return os.path.join(REPO, 'capi/src/implementation/visibility_graphs/code')


def _hash(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def _headers():
    r = []
    for top in (code_dir(), os.path.join(REPO, 'capi/cpp_libs/mio')):
        for pat in ('**/*.h', '**/*.hpp', '**/*.ipp'):
            r += glob.glob(os.path.join(top, pat), recursive=True)
    return sorted(r)


def _compile(job):
    src, obj, flags = job
    if os.path.exists(obj):
        return None
    tmp = '%s.%d.tmp' % (obj, os.getpid())
    p = subprocess.run([CXX] + flags + ['-c', src, '-o', tmp], capture_output=True, text=True)
    if p.returncode:
        return src + '\n' + p.stderr[-4000:]
    os.rename(tmp, obj)
    return None


def objects(sources, flags, hdr_extra=()):
    os.makedirs(CACHE, exist_ok=True)
    hd = _headers() + list(hdr_extra)
    base = _hash(hd, ' '.join(flags))
    jobs = []
    for s in sources:
        key = _hash([s], base)
        jobs.append((s, os.path.join(CACHE, os.path.basename(s) + '.' + key + '.o'), flags))
    with ThreadPoolExecutor(max_workers=os.cpu_count()) as ex:
        errs = [e for e in ex.map(_compile, jobs) if e]
    if errs:
        die('compilation failed\n' + '\n'.join(errs))
    return [j[1] for j in jobs]


def flags(extra=()):
    L = os.path.join(REPO, 'capi/cpp_libs')
    return ['-std=c++17', '-O1', '-fopenmp', '-w', '-I' + code_dir(), '-I' + L + '/fmt/include',
            '-I' + L + '/indicators/include', '-I' + L + '/mio'] + list(extra)


def lib_sources():
    L = os.path.join(REPO, 'capi/cpp_libs/fmt/src')
    return sorted(glob.glob(os.path.join(code_dir(), '**/*.cpp'), recursive=True)) + [L + '/format.cc', L + '/os.cc']


def build(harness, extra=()):
    """Executable of /verif/harness/<harness>.cpp with CAPI."""
    src = [os.path.join(VERIF, 'harness', harness + '.cpp')]
    objs = objects(src + lib_sources(), flags(extra))
    exe = os.path.join(CACHE, harness + '.' + hashlib.sha256(' '.join(objs).encode()).hexdigest()[:24])
    if not os.path.exists(exe):
        tmp = '%s.%d.tmp' % (exe, os.getpid())
        p = subprocess.run([CXX, '-fopenmp'] + objs + S2 + ['-ldl', '-lpthread', '-o', tmp], capture_output=True, text=True)
        if p.returncode:
            die('link failed\n' + p.stderr[-4000:])
        os.rename(tmp, exe)
    return exe


def build_conc():
    """harness/conc.cpp: the library compiled as for the thread sanitizer, whose functions the harness defines itself"""
    fmt = [s for s in lib_sources() if not s.startswith(code_dir())]
    objs = objects([os.path.join(VERIF, 'harness', 'conc.cpp')] + fmt, flags())
    objs += objects([s for s in lib_sources() if s.startswith(code_dir())], flags(['-fsanitize=thread']))
    exe = os.path.join(CACHE, 'conc.' + hashlib.sha256(' '.join(objs).encode()).hexdigest()[:24])
    if not os.path.exists(exe):
        tmp = '%s.%d.tmp' % (exe, os.getpid())
        p = subprocess.run([CXX, '-fopenmp'] + objs + S2 + ['-ldl', '-lpthread', '-o', tmp], capture_output=True, text=True)
        if p.returncode:
            die('link failed\n' + p.stderr[-4000:])
        os.rename(tmp, exe)
    return exe


def build_module():
    """The Python extension module built from the current bindings; returns the path of the .so"""
    py = '/opt/capi/pypy/bin/python'
    out = subprocess.run([py, '-c', 'import sysconfig,pybind11;print(sysconfig.get_paths()["include"]);'
                          'print(pybind11.get_include());print(sysconfig.get_config_var("EXT_SUFFIX"))'],
                         capture_output=True, text=True)
    if out.returncode:
        die('pypy: ' + out.stderr)
    inc, pyb, suffix = out.stdout.split()
    pf = ['-fPIC', '-fvisibility=hidden']
    libobjs = objects(lib_sources(), flags(['-fPIC']))
    bind = os.path.join(REPO, 'capi/src/implementation/visibility_graphs/bindings.cpp')
    b = objects([bind], flags(['-fPIC', '-fvisibility=hidden', '-include', '/opt/capi/include/pypy_compat.h',
                               '-I' + os.path.dirname(bind), '-I' + inc, '-I' + pyb]))
    name = '_vis_graph' + suffix
    d = os.path.join(CACHE, 'mod.' + hashlib.sha256(' '.join(libobjs + b).encode()).hexdigest()[:24])
    so = os.path.join(d, name)
    if not os.path.exists(so):
        os.makedirs(d, exist_ok=True)
        p = subprocess.run([CXX, '-shared', '-fopenmp'] + libobjs + b + S2 + ['-ldl', '-lpthread', '-o', so + '.tmp'],
                           capture_output=True, text=True)
        if p.returncode:
            die('link failed\n' + p.stderr[-4000:])
        os.rename(so + '.tmp', so)
    return so


def prune(keep=3):
    """Bounds the cache: drops files that were not used for a day when it grows over 3 GB."""
    try:
        fs = [os.path.join(CACHE, f) for f in os.listdir(CACHE)]
        size = sum(os.path.getsize(f) for f in fs if os.path.isfile(f))
        if size > 3 << 30:
            for f in sorted((f for f in fs if os.path.isfile(f)), key=os.path.getmtime)[:len(fs) // 2]:
                os.unlink(f)
    except OSError:
        pass
