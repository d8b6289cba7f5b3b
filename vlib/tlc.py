"""Running TLC, with the rational-arithmetic override compiled from /verif/java."""
import hashlib, os, re, shutil, subprocess, tempfile, time
from .build import OUT, VERIF

JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


def classes():
    src = os.path.join(VERIF, 'java', 'acvspec', 'RatOverride.java')
    key = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:12]
    d = os.path.join(OUT, 'java-' + key)
    if not os.path.isdir(d):
        os.makedirs(OUT, exist_ok=True)
        t = tempfile.mkdtemp(dir=OUT)
        subprocess.run(['javac', '-nowarn', '-cp', JARS, '-d', t, src], check=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        try:
            os.rename(t, d)
        except OSError:
            shutil.rmtree(t)
    return d


class Result:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r'([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct', out)
        self.generated, self.distinct = (int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', ''))) if m else (0, 0)
        m = re.search(r'The depth of the complete state graph search is (\d+)', out)
        self.depth = int(m.group(1)) if m else 0
        self.error = None
        if 'Model checking completed. No error has been found.' not in out and 'Finished in' not in out or rc != 0 or '\nError:' in out or out.startswith('Error:'):
            if rc != 0 or 'Error:' in out:
                m = re.search(r'Error: .*(?:\n.*){0,12}', out)
                self.error = m.group(0) if m else 'TLC exit code %d: %s' % (rc, out[-800:])

    @property
    def ok(self):
        return self.error is None


def run(module, cfg=None, cfg_text=None, env=None, workers=8, xmx='3g', timeout=3600, extra=()):
    """module: path of the .tla file, relative to /verif/specs."""
    specs = os.path.join(VERIF, 'specs')
    tla = os.path.join(specs, module)
    work = tempfile.mkdtemp(prefix='tlc')
    try:
        if cfg_text is not None:
            cfg = os.path.join(work, 'M.cfg')
            open(cfg, 'w').write(cfg_text)
        elif cfg is None:
            cfg = tla[:-4] + '.cfg'
        lib = os.pathsep.join([specs, os.path.join(specs, 'trace'), os.path.join(specs, 'mc')])
        cmd = ['java', '-Xmx' + xmx, '-Xss64m', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=4',
               '-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:acvspec.RatOverride',
               '-DTLA-Library=' + lib, '-cp', classes() + ':' + JARS, 'tlc2.TLC', '-workers', str(workers), '-deadlock',
               '-metadir', os.path.join(work, 'meta'), '-noGenerateSpecTE', '-config', cfg] + list(extra) + [tla]
        e = dict(os.environ)
        e.update(env or {})
        t0 = time.time()
        try:
            p = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
            rc, out = p.returncode, p.stdout.decode(errors='replace')
        except subprocess.TimeoutExpired as x:
            rc, out = 98, (x.stdout or b'').decode(errors='replace') + '\nError: TLC did not end within %d s' % timeout
        return Result(rc, out, time.time() - t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
