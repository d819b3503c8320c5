"""Shared machinery: building the driver from /repo's current tree, running it, running TLC."""
import glob, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('FUEL_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
SPEC = os.path.join(VERIF, 'spec')
SRC = os.path.join(REPO, 'CppLisp', 'CppLispInterpreter')
DBG = os.path.join(REPO, 'CppLisp', 'CppLispDebugger')
CXXFLAGS = ['-std=c++11', '-O1', '-g0', '-w', '-DWITH_STATIC_DEBUGGER', '-D_GLIBCXX_ASSERTIONS', '-I' + SRC, '-I' + DBG]

class CheckError(Exception):
    pass

def sources():
    files = [f for f in sorted(glob.glob(SRC + '/*.cpp')) if os.path.basename(f) not in ('dllmain.cpp', 'stdafx.cpp')]
    files += [DBG + '/Debugger.cpp', os.path.join(VERIF, 'driver', 'driver.cpp')]
    return files

def build_driver():
    """Compiles the driver with the sources as they are now; objects are reused only for identical preprocessed inputs."""
    os.makedirs(BUILD, exist_ok=True)
    hdr = hashlib.sha256()
    for f in sorted(glob.glob(SRC + '/*.h') + glob.glob(DBG + '/*.h')):
        hdr.update(f.encode()); hdr.update(open(f, 'rb').read())
    hdr.update(' '.join(CXXFLAGS).encode())
    def one(f):
        h = hdr.copy(); h.update(f.encode()); h.update(open(f, 'rb').read())
        o = os.path.join(BUILD, os.path.basename(f) + '.' + h.hexdigest()[:24] + '.o')
        if not os.path.exists(o):
            tmp = '%s.%d' % (o, os.getpid())
            r = subprocess.run(['g++'] + CXXFLAGS + ['-c', f, '-o', tmp], capture_output=True, text=True)
            if r.returncode != 0:
                raise CheckError('compiling %s failed:\n%s' % (f, r.stderr[-3000:]))
            os.rename(tmp, o)
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, sources()))
    key = hashlib.sha256(' '.join(objs).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, 'driver.' + key)
    if not os.path.exists(exe):
        tmp = '%s.%d' % (exe, os.getpid())
        r = subprocess.run(['g++', '-o', tmp] + objs + ['-ldl', '-lpthread'], capture_output=True, text=True)
        if r.returncode != 0:
            raise CheckError('linking failed:\n' + r.stderr[-3000:])
        os.rename(tmp, exe)
    return exe

def encode_case(c):
    """c: list of (key, text) pairs"""
    out = []
    for k, v in c:
        b = v.encode('latin-1')
        out.append(b'%s %d\n%s\n' % (k.encode(), len(b), b))
    out.append(b'end 0\n\n')
    return b''.join(out)

def run_driver(exe, cases, batch=False, jobs=8):
    """Runs all cases, returns their observations in the same order."""
    n = max(1, (len(cases) + jobs - 1) // jobs)
    chunks = [cases[i:i + n] for i in range(0, len(cases), n)]
    def one(chunk):
        d = tempfile.mkdtemp(prefix='fuelv')
        os.chmod(d, 0o777)
        try:
            r = subprocess.run([exe, d] + (['--batch'] if batch else []), input=b''.join(encode_case(c) for c in chunk), capture_output=True)
            obs = [json.loads(l) for l in r.stdout.decode('latin-1').splitlines() if l]
            if r.returncode != 0 or len(obs) != len(chunk):
                raise CheckError('driver failed: rc=%d, %d of %d observations' % (r.returncode, len(obs), len(chunk)))
            return obs
        finally:
            shutil.rmtree(d, ignore_errors=True)
    with ThreadPoolExecutor(jobs) as ex:
        return [o for part in ex.map(one, chunks) for o in part]

TLA_JAR = '/opt/veriftools/tla/tla2tools.jar'

def run_tlc(module, cfg, workdir, env=None, workers=8, heap='8g', timeout=840, extra=()):
    """Runs TLC on spec/<module>.tla with the given configuration text; returns its output."""
    os.makedirs(workdir, exist_ok=True)
    cfgf = os.path.join(workdir, module + '.cfg')
    open(cfgf, 'w').write(cfg)
    e = dict(os.environ)
    e.update(env or {})
    e['JAVA_TOOL_OPTIONS'] = '-Xmx%s -Xss64m -XX:+UseParallelGC' % heap
    cmd = ['tlc', '-workers', str(workers), '-config', cfgf, '-metadir', os.path.join(workdir, 'states'), '-nowarning', '-deadlock', '-noGenerateSpecTE'] + list(extra) + [os.path.join(SPEC, module + '.tla')]
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, env=e, timeout=timeout, cwd=SPEC)
    except subprocess.TimeoutExpired as t:
        raise CheckError('TLC timed out on %s' % module)
    shutil.rmtree(os.path.join(workdir, 'states'), ignore_errors=True)
    return r.returncode, r.stdout + r.stderr
