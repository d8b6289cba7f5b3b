"""Recording side of the checks (runs under the interpreter of the code under test).

A driver makes cases; a case holds a model, data and the recorded results of calls to the public API.  Cases are
written as ndjson for the trace specifications:
  - reals are exact: outputs "n/d" (a double is a rational), feature values and thresholds ranked feature by feature
  - features, classes and rows are numbered from 1
Numbers are never compared here: every judgement is the specification's.
"""
import argparse, faulthandler, json, math, os, sys, time, traceback, warnings

warnings.filterwarnings('ignore')
import numpy as np

BIG = 1000000000


def rat(x):
    if isinstance(x, (bool, np.bool_)):
        return '1/1' if x else '0/1'
    x = float(x)
    if x != x:
        return 'nan'
    if x in (math.inf, -math.inf):
        return 'inf' if x > 0 else '-inf'
    n, d = x.as_integer_ratio()
    return '%d/%d' % (n, d)


def rats(a):
    """Nested sequences of reals."""
    if isinstance(a, np.ndarray):
        a = a.tolist()
    elif hasattr(a, 'shape'):
        a = np.asarray(a).tolist()
    if isinstance(a, (list, tuple)):
        return [rats(v) for v in a]
    return rat(a)


def ints(a, off=0):
    """Nested sequences of integers (a value that is not an integer is kept as a string)."""
    if isinstance(a, np.ndarray) or hasattr(a, 'shape'):
        a = np.asarray(a).tolist()
    if isinstance(a, (list, tuple, set, frozenset)):
        return [ints(v, off) for v in a]
    if float(a) == int(a):
        return int(a) + off
    return repr(a)


class Co:
    """A real number on the axis of feature j (0-based), to be ranked when the case is written."""
    __slots__ = ('j', 'v')

    def __init__(self, j, v):
        self.j, self.v = j, float(v)


def rows(X):
    X = np.asarray(X, dtype=float)
    return [[Co(j, v) for j, v in enumerate(r)] for r in X.tolist()]


def boxes(R):
    """Rules: (lower, upper) for every feature."""
    R = np.asarray(R, dtype=float)
    if R.ndim == 2:
        return [[Co(j, a), Co(j, b)] for j, (a, b) in enumerate(R.tolist())]
    return [boxes(r) for r in R]


def _collect(o, pools):
    if isinstance(o, Co):
        if o.v == o.v and abs(o.v) < 1e10:
            pools.setdefault(o.j, set()).add(o.v)
    elif isinstance(o, dict):
        for v in o.values():
            _collect(v, pools)
    elif isinstance(o, (list, tuple)):
        for v in o:
            _collect(v, pools)


def _rank(o, ranks):
    if isinstance(o, Co):
        if o.v != o.v:
            return 'nan'
        if abs(o.v) >= 1e10:
            return BIG if o.v > 0 else -BIG
        return ranks[o.j][o.v]
    if isinstance(o, dict):
        return {k: _rank(v, ranks) for k, v in o.items() if k[0] != '_'}
    if isinstance(o, (list, tuple)):
        return [_rank(v, ranks) for v in o]
    return o


def finish(case):
    pools = {}
    _collect(case, pools)
    ranks = {j: {v: k + 1 for k, v in enumerate(sorted(s))} for j, s in pools.items()}
    return _rank(case, ranks)


class Recorder:
    def __init__(self, marker):
        self.marker = marker

    def mark(self, text):
        if self.marker:
            with open(self.marker, 'w') as f:
                f.write(text)

    def group(self, case, f, **args):
        """A request to the specification; the results of the API calls that answer it are added with `add`."""
        g = dict(f=f)
        g.update(args)
        g['outs'] = []
        g['_id'] = '%s %d:%s' % (case['id'], len(case['calls']) + 1, f)
        case['calls'].append(g)
        return g

    def add(self, g, v, fn, enc, inputs=()):
        o = dict(v=v)
        self.mark('%s %s' % (g['_id'], v))
        before = [_snap(a) for a in inputs]
        r = None
        try:
            with np.errstate(all='ignore'):
                r = fn()
            o['out'] = enc(r)
        except Exception as e:
            r = None
            o['err'] = ('%s: %s | %s' % (type(e).__name__, e, ' '.join(traceback.format_exc().strip().split('\n')[-3:-1])))[:400]
        if [_snap(a) for a in inputs] != before:
            o['mut'] = 1
        g['outs'].append(o)
        return r


def _snap(a):
    if isinstance(a, np.ndarray):
        return a.dtype.str, a.shape, np.ascontiguousarray(a).tobytes()
    return json.dumps(a, default=str)


# ---------------------------------------------------------------------------------------------- random models and data

def dy(v):
    return round(float(v) * 8) / 8.0


def gen_tree(rng, m, depth, d, leafval, pool=None, stop=0.15, redundant=0.1, grid=(-2, -1, 0, 1, 2)):
    """A random tree as the dictionary ACVTree accepts. Features come from `pool`, thresholds from `grid`."""
    cl, cr, f, t, v = [], [], [], [], []
    pool = list(range(m)) if pool is None else pool

    def grow(depth, box):
        n = len(cl)
        cl.append(-1), cr.append(-1), f.append(-2), t.append(-2.0), v.append([0.0] * d)
        split = None
        if depth > 0 and (n == 0 or rng.rand() > stop):
            for _ in range(8):
                j = pool[rng.randint(len(pool))]
                th = float(grid[rng.randint(len(grid))])
                lo, hi = box.get(j, (-math.inf, math.inf))
                if lo < th < hi or rng.rand() < redundant:
                    split = (j, th, lo, hi)
                    break
        v[n] = [float(x) for x in leafval()]
        if split is None:
            return n
        j, th, lo, hi = split
        f[n], t[n] = j, th
        b = dict(box)
        b[j] = (lo, min(hi, th))
        cl[n] = grow(depth - 1, b)
        b = dict(box)
        b[j] = (max(lo, th), hi)
        cr[n] = grow(depth - 1, b)
        return n

    grow(depth, {})
    n = len(cl)
    cl, cr = np.array(cl), np.array(cr)
    return dict(children_left=cl, children_right=cr, children_default=cr.copy(), features=np.array(f),
                thresholds=np.array(t, dtype=float), values=np.array(v, dtype=float).reshape(n, d),
                node_sample_weight=np.ones(n))


def gen_rows(rng, n, m, grid=(-2, -1, 0, 1, 2), levels=None):
    """Rows on, between and beyond the thresholds."""
    vals = sorted(set(list(grid) + [g + .5 for g in grid] + [grid[0] - .5]))
    if levels:
        vals = levels
    return np.array(vals, dtype=float)[rng.randint(len(vals), size=(n, m))].reshape(n, m)


def rescale(rng, trees, *mats):
    """Moves columns to other scales and origins, thresholds included: the order of the values of a column is unchanged."""
    if rng.rand() < .5:
        return
    for j in range(mats[0].shape[1]):
        s = [1.0, 1.0, 1e-9, 1e-6, 2.0 ** -20, 3e4, 1e8][rng.randint(7)]
        o = [0.0, 0.0, 3.3, -17.0, 1e6][rng.randint(5)] if s > 1e-5 else [0.0, 0.0, 1e-3][rng.randint(3)]
        for t in trees:
            at = t['features'] == j
            t['thresholds'][at] = t['thresholds'][at] * s + o
        for Z in mats:
            Z[:, j] = Z[:, j] * s + o


def spec_tree(t):
    """A dictionary tree for the specification."""
    more = dict(d=[int(c) + 1 for c in t['children_default']]) if 'children_default' in t else {}
    return dict(**more, l=[int(c) + 1 for c in t['children_left']], r=[int(c) + 1 for c in t['children_right']],
                f=[int(a) + 1 if int(a) >= 0 else 0 for a in t['features']],
                t=[Co(int(a), b) if int(a) >= 0 else 0 for a, b in zip(t['features'], t['thresholds'])],
                v=rats(t['values']))


def tree_of(e, scale=1.0, normalize=False):
    """The arrays of a fitted scikit-learn (or skranger) tree, as a dictionary tree."""
    value = np.asarray(e.value, dtype=float)
    value = value.reshape(value.shape[0], -1)
    if normalize:
        value = (value.T / value.sum(1)).T
    return dict(children_left=np.array(e.children_left), children_right=np.array(e.children_right),
                children_default=np.array(e.children_left), features=np.array(e.feature),
                thresholds=np.array(e.threshold, dtype=float), values=value * scale,
                node_sample_weight=np.array(e.weighted_n_node_samples, dtype=float))


class Proba:
    """predict_proba of a dictionary model: the specification's class is recorded with the case."""

    def __init__(self, trees):
        self.trees = trees

    def predict_proba(self, X):
        X = np.asarray(X, dtype=float)
        out = []
        for x in X:
            s = 0
            for t in self.trees:
                n = 0
                while t['children_left'][n] >= 0:
                    n = t['children_left'][n] if x[t['features'][n]] <= t['thresholds'][n] else t['children_right'][n]
                s = s + t['values'][n]
            out.append(s)
        return np.array(out)


def gen_groups(rng, m, maxg=2):
    """Disjoint groups of at least two columns, or [[]]."""
    k = rng.randint(0, maxg + 1)
    perm = list(rng.permutation(m))
    C = []
    for _ in range(k):
        s = 2 + rng.randint(0, 2)
        if len(perm) < s:
            break
        C.append([int(perm.pop()) for _ in range(s)])
    return C if C else [[]]


def one(S):
    return [int(s) + 1 for s in S]


def ones(C):
    return [one(g) for g in C if len(g)]


def main(gens, default=None):
    """gens: {suite: fn(rng, rec, idx, tier) -> case or list of cases}."""
    faulthandler.enable()
    ap = argparse.ArgumentParser()
    ap.add_argument('--suite')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--shard', default='0/1')
    ap.add_argument('--n', type=int, default=10)
    ap.add_argument('--only', type=int)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--out')
    ap.add_argument('--input')
    a = ap.parse_args()
    k, s = [int(v) for v in a.shard.split('/')]
    rec = Recorder(a.out + '.mark' if a.out else None)
    rec.input = a.input
    out = open(a.out, 'w') if a.out else sys.stdout
    gen = gens[a.suite]
    for i in range(a.n):
        if a.only is not None and i != a.only:
            continue
        if i % s != k:
            continue
        rng = np.random.RandomState((a.seed * 1000003 + i * 7919 + sum(map(ord, a.suite)) * 104729) % (2 ** 32))
        np.random.seed((a.seed + i) % 2 ** 32)
        rec.mark('%s-%d: before the first call' % (a.suite, i))
        cs = gen(rng, rec, i, a.tier)
        for c in (cs if isinstance(cs, list) else [cs]):
            if c is not None:
                out.write(json.dumps(finish(c)) + '\n')
        out.flush()
    rec.mark('end')
