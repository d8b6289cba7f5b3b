"""Histories generated from the specification, replayed on explainers."""
import ctypes, io
from common import *
from acv_explainers import ACVTree, ACXplainer
from sklearn.exceptions import NotFittedError
import joblib
import models
from leaf import leaf_case, enc_search, PIS, Proba
from proj import enc_rule, enc_all, sets, ones_, pick, interval2, ranger_tree
from rules import gen_rules, enc_pred, dec, cut

try:
    gomp = ctypes.CDLL('libgomp.so.1')
except OSError:
    gomp = None


def copied(a):
    """Written and read back."""
    b = io.BytesIO()
    joblib.dump(a, b)
    b.seek(0)
    return joblib.load(b)


class Refused(Exception):
    pass


def step(rec, name, fn, enc, watch):
    o = dict(v=name)
    rec.mark(name)
    before = [snap(w) for w in watch]
    try:
        with np.errstate(all='ignore'):
            r = fn()
        o['out'] = enc(r)
    except (NotFittedError, Refused):
        o['refused'] = 1
    except Exception as e:
        o['err'] = ('%s: %s' % (type(e).__name__, e))[:200]
    if [snap(w) for w in watch] != before:
        o['mut'] = 1
    return o


def snap(a):
    return a.dtype.str, a.shape, a.tobytes()


def digest(a):
    """The forest of a fitted explainer, as a text that identifies it."""
    import hashlib
    h = hashlib.sha256()
    for e in a.model.estimators_:
        t = ranger_tree(e.tree_)
        for k in ('children_left', 'features', 'thresholds'):
            h.update(np.asarray(t[k], dtype=float).tobytes())
    return h.hexdigest()[:16]


def acx_requests(rng, m, n, clf, data, yd, X, y):
    """Questions about an ACXplainer: (request of the specification, call of the API, encoding)"""
    out = []
    t, iv = (None, None) if clf else interval2(rng, y)
    for f in ('psdp', 'pexp', 'prule', 'psearch', 'pall'):
        least = int([0, 1, 2, 3][rng.randint(4)])
        S = sets(rng, m, n)
        pi = float(PIS[rng.randint(len(PIS))])
        q = dict(f=f, least=least, clf=int(clf), kind='sdp')
        if iv is not None:
            q['t'] = rats(iv)
        tk = {} if iv is None else dict(t=iv)
        if f in ('psdp', 'pexp', 'prule'):
            q['S'] = ones_(S)
            nm, enc = dict(psdp=('compute_sdp_rf', rats), pexp=('compute_exp_rf', rats), prule=('compute_sdp_rule', enc_rule))[f]
            if f == 'pexp':
                tk = {}
            call = lambda a, nm=nm, S=S, least=least, tk=tk: getattr(a, nm)(X, y, data, yd, S, least, **tk)
        else:
            q.update(C=[], pi=rat(pi), minimal=1, half=1, flip=0)
            if f == 'psearch':
                enc = enc_search
                call = lambda a, pi=pi, least=least, tk=tk: a.importance_sdp_rf(X, y, data, yd, least, pi_level=pi, stop=True, **tk)
            else:
                enc = enc_all
                call = lambda a, pi=pi, least=least, tk=tk: a.sufficient_expl_rf(X, y, data, yd, least, pi_level=pi, **tk)
        out.append((q, call, enc))
    return out


def acx(rng, rec, idx, line):
    clf = bool(idx % 2)
    m = rng.randint(2, 4)
    sets_ = []
    for _ in range(2):
        data, s, lab = models.dataset(rng, m, rng.randint(10, 25), classes=2 if rng.rand() < .6 else 3)
        data = np.round(data * 4) / 4
        sets_.append((data, lab.astype(float) if clf else np.round(s * 4) / 4))
    opts = dict(classifier=clf, n_estimators=int(rng.randint(1, 4)), max_depth=int(rng.randint(1, 5)), min_node_size=int(rng.randint(0, 4)),
                mtry=int(rng.randint(0, 2)) * m, seed=int(rng.randint(1, 10000)), replace=bool(rng.rand() < .5))
    data, yd = sets_[rng.randint(2)]
    X = models.points(rng, data, 2)
    y = yd[rng.randint(len(yd), size=len(X))]
    n = len(X)
    reqs = acx_requests(rng, m, n, clf, data, yd, X, y)
    rs, ap = [], []
    for k in range(2):
        rd, ry = gen_rows(rng, 8, m, grid=(-1, 0, 1)), (rng.randint(0, 2, size=8).astype(float) if clf else rng.randint(-8, 9, size=8) / 4.0)
        R, S = gen_rules(rng, rd, m, rng.randint(1, 5))
        rs.append((rd, ry, R, S))
    for k in range(2):
        Z = cut(rng, rs[k][0], 5)
        cov, level = [0.0, .25][rng.randint(2)], ([.5, .75][rng.randint(2)] if clf else [.77, 2.9][rng.randint(2)])
        proba = int(clf and rng.rand() < .5)
        q = dict(f='gpredict', clf=int(clf), proba=proba, X=rows(Z), cov=dec(cov), level=dec(level))
        nm = 'predict_proba_global_rules' if proba else 'predict_global_rules'
        lv = (cov, level) if clf else (cov,)
        ap.append((q, lambda a, nm=nm, Z=Z, lv=lv, level=level: getattr(a, nm)(Z, *lv, **({} if clf else dict(min_reg=level))), enc_pred))
    fresh = []
    for d, t in sets_:
        a = ACXplainer(**opts)
        a.fit(d, t)
        fresh.append(dict(trees=[spec_tree(ranger_tree(e.tree_)) for e in a.model.estimators_], digest=digest(a), predict=rats(a.model.predict(X))))
    case = dict(id='acx-%d' % idx, kind='acx', m=m, models=fresh, data=rows(data), yd=rats(yd), X=rows(X), y=rats(y), rows=one(range(n)),
                rulesets=[dict(rules=boxes(R), S=ones_(S), data=rows(d), yd=rats(t)) for d, t, R, S in rs],
                requests=[q for q, _, _ in reqs], applies=[q for q, _, _ in ap], hist=[])
    watch = [data, yd, X, y] + [z for s in sets_ for z in s]
    for h, ops in enumerate(line['hist']):
        a = [ACXplainer(**opts)]
        steps = []
        for i, op in enumerate(ops):
            nm = '%s history %d %s step %d' % (case['id'], h + 1, ' '.join(ops), i + 1)
            k = rng.randint(len(reqs))
            z = rng.randint(len(ap))
            extra = {}

            def fit(k, bad=False):
                d, t = sets_[k]
                if bad:
                    try:
                        a[0].fit(d, t[:-1])
                    except ValueError:
                        raise Refused()
                else:
                    a[0].fit(d, t)
                return digest(a[0])

            def fit_rules(k, bad=False):
                d, t, R, S = rs[k]
                if bad:
                    try:
                        a[0].fit_global_rules(d, t[:-1], R, S)
                    except ValueError:
                        raise Refused()
                else:
                    a[0].fit_global_rules(d, t, R, S)
                return 'done'

            def copy():
                a[0] = copied(a[0])
                return 'done'
            same = lambda r: r
            if op == 'explain':
                o = step(rec, nm, lambda: reqs[k][1](a[0]), reqs[k][2], watch)
                extra = dict(r=k + 1)
            elif op == 'predict':
                o = step(rec, nm, lambda: a[0].predict(X), rats, watch)
            elif op == 'apply':
                o = step(rec, nm, lambda: ap[z][1](a[0]), enc_pred, watch)
                extra = dict(r=z + 1)
            else:
                fn = dict(fit1=lambda: fit(0), fit2=lambda: fit(1), badfit=lambda: fit(k % 2, True), rules1=lambda: fit_rules(0),
                          rules2=lambda: fit_rules(1), badrules=lambda: fit_rules(k % 2, True), copy=copy)[op]
                o = step(rec, nm, fn, same, watch)
            steps.append(dict(op=op, **extra, **o))
        case['hist'].append(steps)
    return case


def tree_requests(rng, case, trees, data, X0, C0):
    m = case['m']
    out = []

    def ask(q, calls, enc):
        """Rows of the question, its request, ways of asking."""
        ix = rng.randint(len(X0), size=[1, 2, 11, 30][rng.randint(4)])
        X = X0[ix]
        q['rows'] = one(ix)
        out.append((q, [lambda a, c=c: c(a, X) for c in calls], enc))
    C1 = gen_groups(rng, m) if rng.rand() < .7 else [[]]
    for C in (C0, C1):
        ask(dict(f='shap', C=ones(C)), [lambda a, X, C=C: a.shap_values(X, C), lambda a, X, C=C: a.shap_values(X, C), lambda a, X, C=C: a.shap_values_nopa(X, C)]
            + ([lambda a, X: a.shap_values_cache_nopa(X, C0)] if C is C0 else []), rats)
    C = [C0, C1][rng.randint(2)]
    ask(dict(f='shapnorm', C=ones(C)), [lambda a, X: a.shap_values_normalized(X, C)], rats)
    S = [int(j) for j in rng.permutation(m)[:rng.randint(0, m + 1)]]
    ask(dict(f='exp', S=one(S)), [lambda a, X: a.compute_exp(X, np.array(S, dtype=int), data), lambda a, X: a.compute_exp_nopa(X, np.array(S, dtype=int), data)], rats)
    ask(dict(f='sdp', S=one(S)), [lambda a, X: a.compute_sdp_clf(X, np.array(S, dtype=int), data)], rats)
    k = rng.randint(1, m + 1)
    p = rng.permutation(m)
    A, N = [int(j) for j in p[:k]], [int(j) for j in p[k:]]
    ask(dict(f='active', A=one(A), N=one(N), C=[]), [lambda a, X: a.shap_values_acv(X, np.array(A, dtype=int), np.array(N, dtype=int), [[]]),
                                                     lambda a, X: a.shap_values_acv_nopa(X, np.array(A, dtype=int), np.array(N, dtype=int), [[]])], rats)
    return out


def tree(rng, rec, idx, line):
    """An ACVTree, with or without cache."""
    case, trees, data, _ = leaf_case(rng, 'tree', idx, proba=True, maxm=4, maxtrees=3, rows_=3, nb=rng.randint(3, 9))
    X0 = case.pop('_X')
    del case['_ix']
    m = case['m']
    pr = Proba(trees)
    case['fx'], case['yp'] = ints(pr.predict_proba(X0).argmax(1), 1), ints(pr.predict_proba(data).argmax(1), 1)
    C0 = gen_groups(rng, m)
    reqs = tree_requests(rng, case, trees, data, X0, C0)
    case.update(id='tree-%d' % idx, kind='tree', requests=[q for q, _, _ in reqs], hist=[])
    watch = [data, X0] + [t[k] for t in trees for k in ('thresholds', 'values', 'features', 'children_left')]

    def make(cache, mt):
        a = ACVTree({"trees": trees}, data, cache=cache, cache_normalized=cache, C=C0, multi_threads=mt)
        a.model = pr
        return a
    made = {}
    for h, ops in enumerate(line['hist']):
        how = [(False, True), (True, True), (True, False)][rng.randint(3)]
        a = [make(*how)]
        steps = []
        for i, op in enumerate(ops):
            nm = '%s history %d %s step %d' % (case['id'], h + 1, ' '.join(ops), i + 1)

            def copy():
                if not how[0]:  # (a tree with a cache is not meant to be written)
                    a[0] = copied(a[0])
                return 'done'

            def threads():
                if gomp is not None:
                    gomp.omp_set_num_threads([1, 2, 3, 4, 8][rng.randint(5)])
                return 'done'
            extra = {}
            if op.startswith('call'):
                k = int(op[4:]) - 1
                ways = reqs[k][1]
                if not how[0]:
                    ways = ways[:3]
                w = rng.randint(len(ways))
                o = step(rec, nm, lambda: ways[w](a[0]), reqs[k][2], watch)
                extra = dict(r=k + 1)
            else:
                o = step(rec, nm, copy if op == 'copy' else threads, lambda r: r, watch)
            steps.append(dict(op=op, **extra, **o))
        case['hist'].append(steps)
    return case


def life(rng, rec, idx, tier):
    line = json.loads(open(rec.input).readlines()[idx])
    return (acx if line['kind'] == 'acx' else tree)(rng, rec, idx, line)


if __name__ == '__main__':
    main(dict(life=life, treelife=life))
