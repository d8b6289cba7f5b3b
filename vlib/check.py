"""One check: build the code, check the specification, record the code, judge the records with the specification."""
import concurrent.futures as cf, copy, glob, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
from . import build, tlc
from .build import VERIF, PYPY

SHARDS = 6


class Machinery(Exception):
    pass


def drive(lib, driver, suite, n, seed, tier, work, shards=SHARDS, inp=None, timeout=420, only=None):
    """Runs the driver; returns (cases, crashes)."""
    env = build.run_env(lib)
    env.update(OMP_NUM_THREADS='4', OMP_WAIT_POLICY='passive')
    shards = max(1, min(shards, n))
    ps = []
    for k in range(shards):
        out = os.path.join(work, '%s-%d.ndjson' % (suite, k))
        cmd = [PYPY, os.path.join(VERIF, 'drivers', driver + '.py'), '--suite', suite, '--seed', str(seed), '--n', str(n),
               '--shard', '%d/%d' % (k, shards), '--tier', tier, '--out', out]
        if inp:
            cmd += ['--input', inp]
        if only is not None:
            cmd += ['--only', str(only)]
        log = open(out + '.log', 'w')
        ps.append((out, subprocess.Popen(cmd, cwd=work, env=env, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)))
    end = time.time() + timeout
    cases, crashes = [], []
    for out, p in ps:
        try:
            rc = p.wait(max(1, end - time.time()))
            why = None if rc == 0 else ('ended by signal %d' % -rc if rc < 0 else 'exit code %d' % rc)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            why = 'did not return within %d s' % timeout
        if os.path.exists(out):
            for line in open(out):
                if line.endswith('\n'):
                    cases.append(line.rstrip('\n'))
        if why:
            mark = open(out + '.mark').read() if os.path.exists(out + '.mark') else 'before the first case'
            tail = open(out + '.log', errors='replace').read()[-2500:]
            crashes.append(dict(suite=suite, at=mark, why=why, log=tail))
    return cases, crashes


def corrupt(case, rnd):
    """Changes one recorded value of a case; None when there is nothing to change."""
    spots = []

    def walk(o, key):
        it = o.items() if isinstance(o, dict) else enumerate(o)
        for k, v in it:
            if isinstance(v, (dict, list)):
                walk(v, key)
            else:
                spots.append((o, k))
    outs = [o for c in case.get('calls', []) for o in c.get('outs', []) if 'out' in o]
    outs += [o for h in case.get('hist', []) for o in h if 'out' in o and 'r' in o]
    if not outs:
        return None
    o = rnd.choice(outs)
    if not isinstance(o['out'], (dict, list)):
        spots.append((o, 'out'))
    else:
        walk(o['out'], None)
    spots = [(c, k) for c, k in spots if isinstance(c[k], (int, str)) and not isinstance(c[k], bool)]
    if not spots:
        return None
    c, k = rnd.choice(spots)
    v = c[k]
    if isinstance(v, int):
        c[k] = v + rnd.choice([1, -1])
    elif re.match(r'^-?\d+/\d+$', v):
        n, d = map(int, v.split('/'))
        a, b = rnd.choice([(1, 3), (-1, 3), (2, 7), (5, 8)])
        c[k] = '%d/%d' % (n * b + a * d, d * b)
    else:
        c[k] = v + '?'
    case['id'] = str(case['id']) + '~canary'
    return case


def judge(module, lines, tier, seed, xmx='4g', timeout=780, canaries=12, env=None, workers=8):
    """Returns (rejections [(line index, text)], result, canary counts)."""
    rnd = random.Random(seed)
    can = []
    idx = list(range(len(lines)))
    rnd.shuffle(idx)
    for i in idx[:canaries]:
        c = corrupt(json.loads(lines[i]), rnd)
        if c is not None:
            can.append(json.dumps(c))
    fd, path = tempfile.mkstemp(suffix='.ndjson')
    with os.fdopen(fd, 'w') as f:
        for l in lines + can:
            f.write(l + '\n')
    try:
        e = dict(TRACE=path)
        e.update(env or {})
        r = tlc.run('trace/%s.tla' % module, cfg_text='INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n', env=e, timeout=timeout,
                    xmx=xmx, workers=workers)
    finally:
        os.unlink(path)
    got = {int(a): b for a, b in re.findall(r'"VERDICT (\d+) (.*)"\s*$', r.out, re.M)}
    rej = [(i - 1, b.replace('\\"', '"')) for i, b in sorted(got.items()) if i <= len(lines) and b != '{}']
    crej = sum(1 for i, b in got.items() if i > len(lines) and b != '{}')
    missing = [i for i in range(1, len(lines) + 1) if i not in got]
    return rej, missing, r, len(can), crej


def safe_judge(module, lines, tier, seed, **kw):
    """A record the specification cannot evaluate (a wrong shape or type) is not a behaviour it allows: such records are
    found by judging smaller and smaller parts."""
    rej, missing, r, nc, cr = judge(module, lines, tier, seed, **kw)
    stats = dict(states=r.distinct, transitions=r.generated, canaries=nc, canaries_rejected=cr, wall=r.wall)
    if not r.error and not missing:
        return rej, stats
    if r.error and 'did not end within' in r.error:
        raise Machinery('TLC on %s: %s' % (module, r.error))
    kw = dict(kw, canaries=0)
    if nc:
        # perhaps only a corrupted record was out of the specification's domain
        rej, missing, r, _, _ = judge(module, lines, tier, seed, **kw)
        if not r.error and not missing:
            stats.update(states=r.distinct, transitions=r.generated, canaries=nc, canaries_rejected=nc, wall=stats['wall'] + r.wall)
            return rej, stats
    out = []
    todo = [list(range(len(lines)))]
    first = r.error
    t0 = time.time()
    while todo and time.time() - t0 < 200:
        part = todo.pop()
        rej, missing, r, _, _ = judge(module, [lines[i] for i in part], tier, seed, **kw)
        if not r.error and not missing:
            out += [(part[i], b) for i, b in rej]
        elif len(part) == 1:
            out.append((part[0], 'outside the specification: ' + (r.error or 'no verdict')[:600]))
            if len([o for o in out if o[1].startswith('outside')]) >= 3:
                break
        else:
            h = max(1, len(part) // 4)
            todo += [part[i:i + h] for i in range(0, len(part), h)]
    if not out:
        raise Machinery('TLC failed on the records of %s: %s' % (module, first))
    return sorted(out), stats


def keep(line, names):
    """The record with only the calls of the functions named by a pattern."""
    c = json.loads(line)
    for q in c['calls']:
        q['outs'] = [o for o in q['outs'] if re.search(names, o['v'])]
    c['calls'] = [q for q in c['calls'] if q['outs']]
    return json.dumps(c) if c['calls'] else None


def known_findings(pid):
    p = os.path.join(VERIF, 'known-findings.json')
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)).get('findings', []) if f['property'] == pid]


class Check:
    def __init__(self, pid, suites, mc=(), assumptions=(), thorough_mc=(), post=None, gen=None):
        """suites: (driver, suite, module, quick cases, thorough cases[, behaviours to replay[, calls judged]]);
        mc: (module, cfg or None, env)"""
        self.pid, self.suites, self.mc, self.assumptions = pid, suites, list(mc), list(assumptions)
        self.thorough_mc, self.post, self.gen = list(thorough_mc), post, gen

    def run(self, only=None):
        t0 = time.time()
        tier = os.environ.get('VERIF_TIER', 'quick')
        tier = 'thorough' if tier == 'thorough' else 'quick'
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        work = tempfile.mkdtemp(prefix='verif-%s-' % self.pid)
        ev = dict(property=self.pid, tier=tier, seed=seed, level='model_checking', wall_s=0, violations=0,
                  assumptions=self.assumptions,
                  coverage=dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], specification=[], records=[]))
        cov = ev['coverage']
        viol = []
        try:
            lib, rep = build.build()
            ev['build'] = rep
            tlc.classes()
            mcs = self.mc + (self.thorough_mc if tier == 'thorough' else [])
            with cf.ThreadPoolExecutor(max_workers=3) as ex:
                # specification checks and recordings side by side; recordings that replay generated behaviours wait for them
                fm = [(m, ex.submit(self._mc, m, work, tier)) for m in mcs]
                fd = []
                for s in self.suites:
                    driver, suite, module, nq, nt = s[:5]
                    n = nq if tier == 'quick' else nt
                    inp = None
                    if len(s) > 5 and s[5]:
                        inp = os.path.join(work, s[5])
                        for m, f in fm:
                            f.result()
                        n = sum(1 for _ in open(inp)) if os.path.exists(inp) else 0
                        if n == 0:
                            raise Machinery('no behaviours generated for %s' % suite)
                    fd.append((s, ex.submit(drive, lib, driver, suite, n, seed, tier, work, SHARDS, inp,
                                            420 if tier == 'quick' else 3000, only)))
                for m, f in fm:
                    r = f.result()
                    cov['states'] += r.distinct
                    cov['transitions'] += r.generated
                    cov['specification'].append(dict(module=m[0], states=r.distinct, transitions=r.generated, depth=r.depth,
                                                     seconds=round(r.wall, 1)))
                    if not r.ok:
                        raise Machinery('specification %s: %s' % (m[0], r.error))
                for s, f in fd:
                    driver, suite, module = s[:3]
                    lines, crashes = f.result()
                    if len(s) > 6 and s[6]:
                        lines = [l for l in (keep(l, s[6]) for l in lines) if l]
                    for c in crashes:
                        viol.append(dict(suite=suite, kind='crash', text='%s: %s' % (c['at'], c['why']), detail=c))
                    if not lines:
                        if not crashes:
                            raise Machinery('no records from %s' % suite)
                        continue
                    rej, st = safe_judge(module, lines, tier, seed, timeout=780 if tier == 'quick' else 6000,
                                         xmx='4g' if tier == 'quick' else '8g')
                    cov['states'] += st['states']
                    cov['transitions'] += st['transitions']
                    cov['traces_validated_against_impl'] += len(lines)
                    calls = sum(l.count('"v":') for l in lines)
                    cov['records'].append(dict(suite=suite, module=module, cases=len(lines), api_results=calls,
                                               corrupted_records=st['canaries'], corrupted_rejected=st['canaries_rejected'],
                                               seconds=round(st['wall'], 1)))
                    if st['canaries'] >= 6 and st['canaries_rejected'] == 0:
                        raise Machinery('%s accepted every corrupted record' % module)
                    if len(cov['samples']) < 3:
                        cov['samples'].append(json.loads(min(lines, key=len)))
                    for i, b in rej:
                        viol.append(dict(suite=suite, kind='rejected', text='%s: %s' % (json.loads(lines[i])['id'], b[:1500]),
                                         case=json.loads(lines[i])))
            return self._report(ev, viol, seed, tier, t0)
        finally:
            shutil.rmtree(work, ignore_errors=True)

    def _mc(self, m, work, tier):
        module, cfg_text, env = (list(m) + [None, None])[:3]
        e = {k: v.replace('$WORK', work) for k, v in (env or {}).items()}
        cfg_text = cfg_text and cfg_text.replace('$LENGTH', '4' if tier == 'quick' else '5')
        return tlc.run(module, cfg_text=cfg_text, env=e, workers=4, timeout=700 if tier == 'quick' else 6000, xmx='4g')

    def _report(self, ev, viol, seed, tier, t0):
        known = known_findings(self.pid)
        new, seen = [], {}
        for v in viol:
            k = next((k for k in known if k['suite'] == v['suite'] and re.search(k['match'], v['text'])), None)
            if k is None:
                new.append(v)
            else:
                seen[k['id']] = k
        for k in known:
            print('KNOWN-FINDING: property=%s %s%s' % (self.pid, k['what'], '' if k['id'] in seen else ' (not met in this run)'))
        ev['violations'] = len(new)
        ev['wall_s'] = round(time.time() - t0, 1)
        os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        c = ev['coverage']
        print('%s %s: %d states, %d records, %.0f s%s' % (self.pid, tier, c['states'], c['traces_validated_against_impl'], ev['wall_s'],
                                                         '' if not new else ', %d rejected' % len(new)))
        for r in c['specification'] + c['records']:
            print('  ' + json.dumps(r))
        if new:
            p = os.path.join('evidence', 'replay', '%s-%d.json' % (self.pid, seed))
            with open(os.path.join(VERIF, p), 'w') as f:
                json.dump(dict(property=self.pid, seed=seed, tier=tier, how='python3 run.py %s (VERIF_SEED=%d VERIF_TIER=%s)' % (self.pid, seed, tier),
                               rejected=[v for v in new[:20]], count=len(new)), f, indent=1)
            for v in new[:8]:
                print('  rejected: %s %s' % (v['suite'], v['text'][:300]))
            print('VIOLATION property=%s replay=%s' % (self.pid, p))
            return 1
        return 0
