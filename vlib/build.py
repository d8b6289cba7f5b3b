"""Build the extensions of /repo's working tree for the checks.

Reuses /opt/acv-build/lib when that build was made from exactly the current sources (its mirror of the
sources is compared byte by byte); otherwise compiles what changed into /verif/.build, keyed by content.
Never writes to /repo or /opt."""
import hashlib, os, shutil, subprocess, sys, fcntl, time

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(VERIF, '.build')
OPT = '/opt/acv-build'
PYPY = '/opt/pypyvenv/bin/python'
SP = '/opt/pypyvenv/lib/pypy3.9/site-packages'
SUF = '.pypy39-pp73-x86_64-linux-gnu.so'

EXTS = {
    'cext_acv': ['acv_explainers/cext_acv/_cext.cc', 'acv_explainers/cext_acv/acv_tree.h'],
    'cyext_acv': ['acv_explainers/cyext_acv/cyext_acv.pyx'],
    'cyext_acv_nopa': ['acv_explainers/cyext_acv/cyext_acv_nopa.pyx'],
    'cyext_acv_cache': ['acv_explainers/cyext_acv/cyext_acv_cache.pyx'],
}


class BuildError(Exception):
    pass


def _read(p):
    try:
        with open(p, 'rb') as f:
            return f.read()
    except OSError:
        return None


def _allfiles(root, ext):
    """Every native source next to the extension's declared sources (a pyx may include or cimport another)."""
    d = os.path.dirname(EXTS[ext][0])
    full = os.path.join(root, d)
    fs = []
    if os.path.isdir(full):
        for f in sorted(os.listdir(full)):
            if ext == 'cext_acv':
                if f.endswith(('.cc', '.h', '.hpp', '.c')):
                    fs.append(os.path.join(d, f))
            else:
                if f.endswith(('.pxd', '.pxi', '.h')) or os.path.join(d, f) == EXTS[ext][0]:
                    fs.append(os.path.join(d, f))
    return fs


def _env():
    return dict(HOME='/root', PATH='/opt/pypyvenv/bin:/usr/local/bin:/usr/bin:/bin', LANG='C.UTF-8')


def _pypy_includes():
    c = ("import sysconfig,numpy;print(sysconfig.get_paths()['include']);print(numpy.get_include())")
    r = subprocess.run([PYPY, '-c', c], env=_env(), capture_output=True, text=True)
    if r.returncode:
        raise BuildError('pypy not usable: ' + r.stderr[-2000:])
    return r.stdout.split('\n')[:2]


def _compile(ext, key):
    """Starts the compilation; returns (popen, target)."""
    work = os.path.join(OUT, 'work-%s-%s' % (ext, key))
    os.makedirs(work, exist_ok=True)
    shim = os.path.join(OUT, 'shim')
    os.makedirs(os.path.join(shim, 'cy'), exist_ok=True)
    os.makedirs(os.path.join(shim, 'np'), exist_ok=True)
    for link, tgt in ((os.path.join(shim, 'cy', 'Cython'), SP + '/Cython'), (os.path.join(shim, 'np', 'numpy'), SP + '/numpy')):
        if not os.path.islink(link):
            try:
                os.symlink(tgt, link)
            except FileExistsError:
                pass
    inc_py, inc_np = _pypy_includes()
    tgt = os.path.join(OUT, '%s-%s%s' % (ext, key, SUF))
    srcdir = os.path.dirname(os.path.join(REPO, EXTS[ext][0]))
    if ext == 'cext_acv':
        src = os.path.join(REPO, EXTS[ext][0])
        gen = 'true'
    else:
        # the module name comes from the file name: compile a copy
        for f in _allfiles(REPO, ext):
            shutil.copy(os.path.join(REPO, f), work)
        pyx = os.path.join(work, os.path.basename(EXTS[ext][0]))
        src = pyx[:-4] + '.cpp'
        gen = ("PYTHONPATH=%s /usr/bin/python3 -c \"import sys; from Cython.Compiler.Main import compile as c; "
               "r=c('%s', cplus=True, include_path=['%s'], language_level=2, output_file='%s'); sys.exit(1 if r.num_errors else 0)\""
               % (os.path.join(shim, 'cy'), pyx, os.path.join(shim, 'np'), src))
    o = os.path.join(work, ext + '.o')
    tmp = tgt + '.tmp%d' % os.getpid()
    flags = '-O1' if ext == 'cext_acv' else '-O0'
    sh = ('set -e; %s; g++ -w %s -DNDEBUG -fPIC -fopenmp -std=gnu++14 -I%s -I%s -I%s -c %s -o %s; '
          'g++ -shared %s -fopenmp -o %s; mv %s %s'
          % (gen, flags, srcdir, inc_np, inc_py, src, o, o, tmp, tmp, tgt))
    env = _env()
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    p = subprocess.Popen(['bash', '-c', sh], cwd=work, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p, tgt, work


def build(log=None):
    """Returns (path for PYTHONPATH, report dict)."""
    os.makedirs(OUT, exist_ok=True)
    t0 = time.time()
    with open(os.path.join(OUT, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        keys, reuse = {}, {}
        for ext in EXTS:
            h = hashlib.sha256()
            same = True
            fs = _allfiles(REPO, ext)
            for f in fs:
                b = _read(os.path.join(REPO, f))
                h.update(f.encode() + b'\0' + (b or b'') + b'\0')
                if b != _read(os.path.join(OPT, 'src', f)):
                    same = False
            so = os.path.join(OPT, 'lib', ext + SUF)
            keys[ext] = h.hexdigest()[:16]
            if same and fs and os.path.exists(so):
                reuse[ext] = so
        jobs = {}
        for ext in EXTS:
            if ext in reuse:
                continue
            tgt = os.path.join(OUT, '%s-%s%s' % (ext, keys[ext], SUF))
            if os.path.exists(tgt):
                reuse[ext] = tgt
                continue
            jobs[ext] = _compile(ext, keys[ext])
        for ext, (p, tgt, work) in jobs.items():
            out, _ = p.communicate()
            if p.returncode:
                raise BuildError('building %s failed:\n%s' % (ext, out.decode(errors='replace')[-3000:]))
            shutil.rmtree(work, ignore_errors=True)
            reuse[ext] = tgt
        key = hashlib.sha256('|'.join('%s=%s' % kv for kv in sorted(reuse.items())).encode()).hexdigest()[:16]
        lib = os.path.join(OUT, 'lib-' + key)
        os.makedirs(lib, exist_ok=True)
        for ext, so in reuse.items():
            d = os.path.join(lib, ext + SUF)
            if os.path.realpath(d) != os.path.realpath(so):
                if os.path.lexists(d):
                    os.unlink(d)
                os.symlink(so, d)
    return lib, dict(compiled=sorted(jobs), seconds=round(time.time() - t0, 1))


def run_env(lib):
    mpl = os.path.join(OUT, 'mpl')
    os.makedirs(mpl, exist_ok=True)
    e = _env()
    e.update(PYTHONPATH='%s:%s' % (lib, REPO), PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg',
             MPLCONFIGDIR=mpl, OPENBLAS_NUM_THREADS='1', TQDM_DISABLE='1')
    return e


if __name__ == '__main__':
    print(build())
