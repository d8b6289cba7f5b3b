"""Counterfactual rules: the CR pipeline on a fitted ACXplainer."""
import contextlib, io
from common import *
from acv_explainers import ACXplainer
from acv_explainers.counterfactual_rules import CR
import models
from leaf import enc_search, PIS
from proj import acx, enc_w, enc_max, ones_, interval2
from sklearn.ensemble import IsolationForest

IsolationForest.__init__.__kwdefaults__['n_estimators'] = 8  # (speed: any outlier score will do)


class Tap:
    """An explainer that remembers what it was asked."""

    def __init__(self, a):
        self._a, self.log = a, []

    def __getattr__(self, k):
        v = getattr(self._a, k)
        if not callable(v) or not k.startswith(('compute_', 'importance_')):
            return v

        def call(*args, **kw):
            r = v(*args, **kw)
            self.log.append((k, args, kw, copy(r)))
            return r
        return call


def copy(r):
    return tuple(copy(v) for v in r) if isinstance(r, (list, tuple)) else np.array(r) if isinstance(r, np.ndarray) else r


class Model:
    """The model that is explained: another function of the same columns."""

    def __init__(self, rng, m, clf):
        self.w, self.b, self.clf = rng.randint(-2, 3, size=m), rng.randint(-4, 5) / 8.0, clf

    def predict(self, X):
        s = np.asarray(X, dtype=float) @ self.w + self.b
        return (s > 0).astype(int) if self.clf else s


def quiet(fn):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return fn()


def mean(v):
    v = np.asarray(v, dtype=float)
    return 'nan' if v.size == 0 else rat(np.mean(v))


def evaluated(tap, X, y, pi):
    """The boxes whose probability was asked, by row."""
    out = [[] for _ in X]
    for k, args, kw, r in tap.log:
        if k != 'compute_cdp_cond_weights':
            continue
        x = np.asarray(args[0] if args else kw['X'])
        cond = np.asarray(kw['cond'] if 'cond' in kw else args[7])
        for z in range(len(x)):
            for i in range(len(X)):
                if np.array_equal(X[i], x[z]):
                    out[i].append(dict(box=boxes(cond[z]), value=rat(r[0][z])))
    return out


def enc_rules(cr, kind, tap, X, y):
    b = getattr(cr, 'counterfactuals_samples_' + kind)
    v = getattr(cr, 'counterfactuals_samples_sdp_' + kind)
    w = getattr(cr, 'counterfactuals_samples_w_' + kind)
    return dict(rules=[boxes(r) for r in b], values=rats(list(v)), w=[rats(z) for z in w], evaluated=evaluated(tap, X, y, 0))


def enc_sample(cr, kind, a, model, src, n):
    """Points sampled (with the rows they come from, where the sampling tells)."""
    d = getattr(cr, 'dist_' + kind)
    D = np.array([np.ravel(z) for z in d]).reshape(len(d), -1)
    own = lambda f, Z: rats(np.ravel(f.predict(Z))) if len(Z) else []
    return dict(points=rows(D), pred=own(a, D), orig=own(model, D) if model is not None else [],
                score=rats([np.ravel(s)[0] for s in getattr(cr, 'score_' + kind)]), outlier=rats(cr.isolation.decision_function(D)) if len(D) else [],
                errs=[int(np.ravel(e)[0]) for e in getattr(cr, 'errs_' + kind)], errs2=[int(np.ravel(e)[0]) for e in getattr(cr, 'errs_%s_original' % kind)],
                accuracy=rat(getattr(cr, 'accuracy_' + kind)), accuracy2=rat(getattr(cr, 'accuracy_%s_original' % kind)),
                coverage=rat(getattr(cr, 'coverage_' + kind)))


def cr_case(rng, idx):
    clf = bool(idx % 2)
    m = rng.randint(2, 5)
    data, s, lab = models.dataset(rng, m, rng.randint(14, 34), classes=2 if rng.rand() < .7 else 3)
    data = np.round(data * 4) / 4
    yd = lab.astype(float) if clf else np.round(s * 4) / 4
    a, trees = acx(rng, clf, data, yd)
    X = np.unique(np.concatenate([data[rng.permutation(len(data))[:2]], np.round(models.points(rng, data, 3) * 4) / 4]), axis=0)
    X = np.ascontiguousarray(X[rng.permutation(len(X))[:3]])
    cuts = [sorted(set(np.round(float(v), 2) for t in trees for f, v, l in zip(t['features'], t['thresholds'], t['children_left']) if f == j and l >= 0)) for j in range(m)]
    return clf, m, data, yd, a, trees, X, cuts


def targets(rng, clf, yd, n):
    """Wanted classes, or intervals that hold a training target."""
    y = yd[rng.randint(len(yd), size=n)].copy()
    if clf:
        return y, np.zeros(n), np.zeros(n), None
    lo = y - rng.randint(0, 9, size=n) / 4.0
    hi = y + rng.randint(0, 9, size=n) / 4.0
    return y, lo, hi, np.stack([lo, hi], axis=1)


def base(name, idx, m, trees, data, yd, X, y, cuts):
    return dict(id='%s-%d' % (name, idx), m=m, trees=[spec_tree(t) for t in trees], data=rows(data), yd=rats(yd), X=rows(X), y=rats(y),
                rows=one(range(len(X))), cuts=[[Co(j, v) for v in c] for j, c in enumerate(cuts)], calls=[])


FAST = dict(p_best=.6, n_try=5, batch=4, max_iter=5, max_iter_convergence=3)


def own_args(tap, name):
    """Result of the last call of a search."""
    return [r for k, _, _, r in tap.log if k == name][-1]


def local(rng, rec, idx, tier):
    clf, m, data, yd, a, trees, X, cuts = cr_case(rng, idx)
    y, lo, hi, iv = targets(rng, clf, yd, len(X))
    case = base('crlocal', idx, m, trees, data, yd, X, y, cuts)
    n = len(X)
    tap = Tap(a)
    model = Model(rng, m, clf) if rng.rand() < .5 else None
    cr = CR(tap, data, X, yd, y, ['c%d' % j for j in range(m)], model)
    pi = float(PIS[rng.randint(len(PIS))])
    acc = [.5, .7, .8, .9, 1.][rng.randint(5)]
    stop = bool(rng.rand() < .5)
    kt = dict(y_target=y) if clf else dict(y_target=y, down=lo, up=hi)
    kw = dict(clf=int(clf), kind='cdp')
    if not clf:
        kw['t'] = rats(iv)
    g = rec.group(case, 'psearch', half=int(stop), flip=1, C=[], pi=rat(pi), minimal=1, least=5, **kw)
    rec.add(g, 'run_local_divergent_set', lambda: quiet(lambda: cr.run_local_divergent_set(X, stop=stop, pi_level=pi, **kt)),
            lambda r: enc_search(own_args(tap, 'importance_cdp_rf')), [X, y, lo, hi, data, yd])
    if 'err' in g['outs'][-1]:
        return case
    g = rec.group(case, 'sets', sets=ints(cr.ddp_index_local, 1), size=ints(cr.size_local))
    rec.add(g, 'S_star_local, S_bar_set_local', lambda: (cr.S_star_local, cr.S_bar_set_local), lambda r: dict(star=ones_(r[0]), bar=ones_(r[1])))
    bar = [[int(j) for j in s] for s in cr.S_bar_set_local]
    star = [[int(j) for j in s] for s in cr.S_star_local]
    g = rec.group(case, 'pweights', S=ones_(bar), least=5, **kw)
    rec.add(g, 'ddp_local, w_local', lambda: (cr.ddp_local, cr.w_local), enc_w)
    for pi2 in (pi, float(PIS[rng.randint(len(PIS))])):
        tap.log.clear()
        g = rec.group(case, 'crules', where='local', S=ones_(star), bar=ones_(bar), least=5, pi=rat(pi2), acc=rat(acc), w=rats(cr.w_local), **kw)
        rec.add(g, 'run_local_counterfactual_rules',
                lambda: quiet(lambda: cr.run_local_counterfactual_rules(X, acc_level=acc, pi_level=pi2, **kt, **FAST)),
                lambda r: enc_rules(cr, 'local', tap, X, y), [X, y, lo, hi, data, yd])
        if 'err' in g['outs'][-1]:
            return case
    g = rec.group(case, 'csample', where='local', S=ones_(star), src=one(range(n)), rules=[boxes(r) for r in cr.counterfactuals_samples_local],
                  values=rats(list(cr.counterfactuals_samples_sdp_local)), starts=rows(X), pred=rats(a.predict(X)), orig=rats(model.predict(X)) if model else [],
                  own=1, total=n, **kw)
    rec.add(g, 'run_sampling_local_counterfactuals', lambda: quiet(lambda: cr.run_sampling_local_counterfactuals(X, batch=4, max_iter=5, **kt)),
            lambda r: enc_sample(cr, 'local', a, model, None, n), [X, y, lo, hi, data, yd])
    rec.add(rec.group(case, 'nothing'), 'show_local_counterfactuals', lambda: quiet(lambda: cr.show_local_counterfactuals(X, y)), lambda r: 0)
    return case


def regional(rng, rec, idx, tier):
    clf, m, data, yd, a, trees, X, cuts = cr_case(rng, idx)
    X = X[:2]
    n = len(X)
    y, lo, hi, iv = targets(rng, clf, yd, n)
    yr = yd[rng.randint(len(yd), size=n)].copy()
    case = base('crregional', idx, m, trees, data, yd, X, y, cuts)
    tests = np.ascontiguousarray(np.concatenate([X, np.round(models.points(rng, data, 6) * 4) / 4]))
    tests = np.ascontiguousarray(tests[rng.permutation(len(tests))])
    tap = Tap(a)
    model = Model(rng, m, clf) if rng.rand() < .5 else None
    cr = CR(tap, data, tests, yd, yd[rng.randint(len(yd), size=len(tests))], ['c%d' % j for j in range(m)], model)
    pi, pi1 = float(PIS[rng.randint(len(PIS))]), float(PIS[rng.randint(len(PIS))])
    acc = [.5, .7, .8, .9, 1.][rng.randint(5)]
    stop = bool(rng.rand() < .5)
    algo2 = bool(rng.rand() < .5)
    t0 = None if clf else interval2(rng, yr)[1]
    k0 = dict(clf=int(clf))
    if not clf:
        k0['t'] = rats(t0)
    ycase = dict(y=rats(yr))
    g = rec.group(case, 'psearch', half=0, flip=0, C=[], pi=rat(pi1), minimal=1, least=5, y=rats(yr), **k0)
    rec.add(g, 'run_sufficient_rules', lambda: quiet(lambda: cr.run_sufficient_rules(X, yr, t=t0, pi_level=pi1, algo2=algo2, **FAST)),
            lambda r: enc_search(own_args(tap, 'importance_sdp_rf')), [X, yr, data, yd])
    if 'err' in g['outs'][-1]:
        return case
    g = rec.group(case, 'sets', sets=ints(cr.sdp_index_se, 1), size=ints(cr.size_se))
    rec.add(g, 'S_star_se, N_star_se', lambda: (cr.S_star_se, cr.N_star_se), lambda r: dict(star=ones_(r[0]), bar=ones_(r[1])))
    se = [[int(j) for j in s] for s in cr.S_star_se]
    g = rec.group(case, 'pmax', algo2=int(algo2), S=ones_(se), least=5, pi=rat(pi1), probes=[], y=rats(yr), **k0)
    rec.add(g, 'rules', lambda: (cr.sdp_rules, cr.rules, cr.sdp_all, cr.rules_data, cr.w_rules), enc_max)
    cond = np.array(cr.rules)
    kw = dict(clf=int(clf), kind='cdp', outside=1, cond=boxes(cond))
    if not clf:
        kw['t'] = rats(iv)
    g = rec.group(case, 'psearch', half=int(stop), flip=0, C=[], pi=rat(pi), minimal=1, least=5, **kw)
    rec.add(g, 'run_regional_divergent_set', lambda: quiet(lambda: cr.run_regional_divergent_set(y, **({} if clf else dict(down_up=iv)), stop=stop, pi_level=pi)),
            lambda r: enc_search(own_args(tap, 'importance_cdp_intv')), [X, y, data, yd])
    if 'err' in g['outs'][-1]:
        return case
    g = rec.group(case, 'sets', sets=ints(cr.ddp_index_regional, 1), size=ints(cr.size_regional))
    rec.add(g, 'S_star_regional, S_bar_set_regional', lambda: (cr.S_star_regional, cr.S_bar_set_regional), lambda r: dict(star=ones_(r[0]), bar=ones_(r[1])))
    star = [[int(j) for j in s] for s in cr.S_star_regional]
    bar = [[int(j) for j in s] for s in cr.S_bar_set_regional]
    g = rec.group(case, 'pweights', S=ones_(star), least=5, **kw)
    rec.add(g, 'ddp_regional, w_regional', lambda: (cr.ddp_regional, cr.w_regional), enc_w)
    for pi2 in (pi, float(PIS[rng.randint(len(PIS))])):
        tap.log.clear()
        g = rec.group(case, 'crules', where='regional', S=ones_(star), bar=ones_(bar), least=5, pi=rat(pi2), acc=rat(acc), w=rats(cr.w_regional),
                      **{k: v for k, v in kw.items() if k != 'outside'})
        rec.add(g, 'run_regional_counterfactual_rules', lambda: quiet(lambda: cr.run_regional_counterfactual_rules(acc_level=acc, pi_level=pi2, **FAST)),
                lambda r: enc_rules(cr, 'regional', tap, X, y), [X, y, data, yd])
        if 'err' in g['outs'][-1]:
            return case
    sk = dict(where='regional', S=ones_(star), rules=[boxes(r) for r in cr.counterfactuals_samples_regional], values=rats(list(cr.counterfactuals_samples_sdp_regional)),
              starts=rows(tests), pred=rats(a.predict(tests)), orig=rats(model.predict(tests)) if model else [], cond=boxes(cond), **k0)
    if not clf:
        sk['t'] = rats(iv)
    inside = [[int(z) for z in np.flatnonzero(np.all((tests >= c[:, 0]) & (tests <= c[:, 1]), axis=1))] for c in cond]
    k = int(rng.randint(1, 4))
    src = [(i, z) for i in range(n) for z in inside[i][:k]]
    ways = [0, 1] if rng.rand() < .5 else [1, 0]
    for w in ways:
        if w == 0 and src:
            g = rec.group(case, 'csample', way='first', upto=k, **sk)
            rec.add(g, 'run_sampling_regional_counterfactuals', lambda: quiet(lambda: cr.run_sampling_regional_counterfactuals(max_obs=k, batch=4, max_iter=5)),
                    lambda r: enc_sample(cr, 'regional', a, model, None, n), [X, y, data, yd, tests])
        if w == 1 and src:
            g = rec.group(case, 'csample', way='all', **sk)
            rec.add(g, 'run_sampling_regional_counterfactuals_alltests', lambda: quiet(lambda: cr.run_sampling_regional_counterfactuals_alltests(batch=4, max_iter=5)),
                    lambda r: enc_sample(cr, 'regional', a, model, None, n), [X, y, data, yd, tests])
    rec.add(rec.group(case, 'nothing'), 'show_global_counterfactuals', lambda: quiet(lambda: cr.show_global_counterfactuals()), lambda r: 0)
    return case


if __name__ == '__main__':
    main(dict(crlocal=local, crregional=regional))
