"""Projected forests: Same Decision Probabilities, expectations, rules and searches on the training data."""
from common import *
from acv_explainers import ACVTree, ACVTreeAgnostic, ACXplainer
import models
from leaf import order, enc_search, PIS


def dict_case(rng, name, idx, clf, maxm=5, rows_=4, maxtrees=3, maxdepth=4, nb=None, distinct=False, wide=False):
    """Random trees, data with targets, rows with targets."""
    m = rng.randint(2, maxm + 1)
    trees = []
    for _ in range(rng.randint(1, maxtrees + 1)):
        pool = list(rng.permutation(m)[:rng.randint(1, m + 1)]) if rng.rand() < .3 else None
        trees.append(gen_tree(rng, m, rng.randint(1, maxdepth + 1), 1, lambda: [rng.randint(-8, 9) / 4.0], pool, stop=.1))
    nb = nb or rng.randint(1, 15)
    data, X = gen_rows(rng, nb, m), gen_rows(rng, rng.randint(1, rows_ + 1), m)
    if wide:
        big = int(rng.randint(11, 13))
        cols = rng.permutation(big)[:m]
        W = [gen_rows(rng, len(Z), big) for Z in (data, X)]
        for w, Z in zip(W, (data, X)):
            w[:, cols] = Z
        for t in trees:
            t['features'] = np.where(t['features'] >= 0, cols[t['features']], t['features'])
        data, X = W
        m = big
    src = rng.randint(nb, size=len(X))
    for i in range(len(X)):
        if rng.rand() < .6 or distinct:
            X[i] = data[src[i]]
    if distinct:
        yd = rng.permutation(np.arange(-nb, nb))[:nb] / 2.0
        y = rng.randint(-nb, nb, size=len(X)) / 2.0
    elif clf:
        k = rng.randint(2, 4)
        lab = np.array([0, 1, 2]) if rng.rand() < .7 else rng.permutation([-1, 1, 5])
        yd, y = lab[rng.randint(k, size=nb)].astype(float), lab[rng.randint(k, size=len(X))].astype(float)
    else:
        yd, y = rng.randint(-8, 9, size=nb) / 4.0, rng.randint(-8, 9, size=len(X)) / 4.0
    rescale(rng, trees, data, X)
    ix = order(rng, len(X))
    case = dict(id='%s-%d' % (name, idx), m=m, trees=[spec_tree(t) for t in trees], data=rows(data), yd=rats(yd), X=rows(X), y=rats(y), rows=one(ix), calls=[])
    return case, trees, data, yd, X, y, ix


def fit_case(rng, name, idx, clf):
    """A fitted model explained by ACVTree."""
    kinds = [k for k in models.KINDS if k != 'IsolationForest' and ('Class' in k) == clf]
    kind = kinds[idx % len(kinds)]
    model, data, yd, trees, off, own, tol = models.fitted(rng, kind, size=3, depth=3)
    keep = rng.permutation(len(data))[:rng.randint(6, 20)]
    data, yd = data[keep], np.asarray(yd, dtype=float)[keep]
    if not clf:
        yd = np.round(yd * 4) / 4
    X = models.points(rng, data, 4)
    y = yd[rng.randint(len(yd), size=len(X))]
    ix = order(rng, len(X))
    case = dict(id='%s-%d-%s' % (name, idx, kind), m=data.shape[1], trees=[spec_tree(t) for t in trees], data=rows(data), yd=rats(yd), X=rows(X), y=rats(y), rows=one(ix), calls=[])
    return case, model, data, yd, X, y, ix


def ranger_tree(e):
    t = tree_of(e)
    t['features'] = np.where((t['features'] == -2) & (t['children_left'] >= 0), 0, t['features'])
    return t


def acx(rng, clf, data, yd, **kw):
    """A fitted ACXplainer and its trees, read from the forest it fits."""
    a = ACXplainer(classifier=clf, n_estimators=int(rng.randint(1, 4)), max_depth=int(rng.randint(1, 5)), min_node_size=int(rng.randint(0, 4)),
                   mtry=int(rng.randint(0, 2)) * data.shape[1], seed=int(rng.randint(1, 10000)), replace=bool(rng.rand() < .5), **kw)
    a.fit(data, yd)
    return a, [ranger_tree(e.tree_) for e in a.model.estimators_]


def acx_case(rng, name, idx, clf, n=(12, 40), maxm=4):
    m = rng.randint(2, maxm + 1)
    data, s, lab = models.dataset(rng, m, rng.randint(*n), classes=2 if rng.rand() < .6 else 3)
    yd = lab.astype(float) if clf else np.round(s * 4) / 4
    X = models.points(rng, data, rng.randint(1, 5))
    y = yd[rng.randint(len(yd), size=len(X))]
    a, trees = acx(rng, clf, data, yd)
    ix = order(rng, len(X))
    case = dict(id='%s-%d' % (name, idx), m=m, trees=[spec_tree(t) for t in trees], data=rows(data), yd=rats(yd), X=rows(X), y=rats(y), rows=one(ix), calls=[])
    return case, a, data, yd, X, y, ix


def sets(rng, m, n, lo=0, hi=None):
    return [[int(j) for j in rng.permutation(m)[:rng.randint(lo, (m if hi is None else hi) + 1)]] for _ in range(n)]


def pick(L, ix):
    return [L[i] for i in ix]


def interval(rng, y):
    """(t for the API, intervals of the distinct rows)"""
    r = rng.rand()
    if r < .3:
        t = float(rng.randint(0, 12)) / 4
        return t, np.stack([y - t, y + t], axis=1)
    lo = y - rng.randint(-2, 9, size=len(y)) / 4.0
    return None, np.stack([lo, lo + rng.randint(0, 17, size=len(y)) / 4.0], axis=1)


def tree(rng, rec, idx, tier):
    """Estimates of ACVTree on dictionary trees and fitted models."""
    clf = bool(rng.rand() < .5)
    if idx % 3 == 2:
        case, model, data, yd, X, y, ix = fit_case(rng, 'ptree', idx // 3, clf)
    else:
        case, trees, data, yd, X, y, ix = dict_case(rng, 'ptree', idx, clf)
        model = {"trees": trees}
    a, b = ACVTree(model, data), ACVTreeAgnostic(model, data)
    m, n = case['m'], len(X)
    Xr, yr = X[ix], y[ix]
    for r in range(4):
        S = sets(rng, m, n, *((m, m) if rng.rand() < .2 else ()))
        Sr = pick(S, ix)
        least = int([0, 1, 2, 3, 5, 8][rng.randint(6)])
        kw = dict(S=ones_(S), least=least, clf=int(clf))
        t, iv = interval(rng, y)
        tr = t if t is not None else iv[ix]
        if not clf:
            kw['t'] = rats(iv)
        g = rec.group(case, 'psdp', **kw)
        if clf:
            rec.add(g, 'compute_sdp_rf', lambda: a.compute_sdp_rf(Xr, yr, data, yd, Sr, least), rats)
        else:
            rec.add(g, 'compute_sdp_rf', lambda: a.compute_sdp_rf(Xr, yr, data, yd, Sr, least, 0, tr), rats)
        ta = (20 if clf else t) if rng.rand() < .5 and (clf or t is not None) else np.zeros((len(ix), 2)) if clf else iv[ix]
        rec.add(g, 'ACVTreeAgnostic.compute_sdp_rf', lambda: b.compute_sdp_rf(Xr, yr, data, yd, Sr, least, int(clf), ta), rats)
        g = rec.group(case, 'prule', **kw)
        rec.add(g, 'ACVTreeAgnostic.compute_sdp_rule', lambda: b.compute_sdp_rule(Xr, yr, data, yd, Sr, least, int(clf), ta), enc_rule)
        g = rec.group(case, 'pexp', **kw)
        rec.add(g, 'compute_exp_rf', lambda: a.compute_exp_rf(Xr, yr, data, yd, Sr, least, int(clf)), rats)
        rec.add(g, 'ACVTreeAgnostic.compute_exp_rf', lambda: b.compute_exp_rf(Xr, yr, data, yd, Sr, least, int(clf)), rats)
        at = float(rng.randint(-8, 9)) / 4 if rng.rand() < .5 else rng.randint(-8, 9, size=n) / 4.0
        g = rec.group(case, 'pcdf', at=rats(np.full(n, at) if np.ndim(at) == 0 else at), **kw)
        rec.add(g, 'compute_cdf_rf', lambda: a.compute_cdf_rf(Xr, yr, data, yd, Sr, least, int(clf), at if np.ndim(at) == 0 else at[ix]), rats)
        rec.add(g, 'ACVTreeAgnostic.compute_cdf_rf', lambda: b.compute_cdf_rf(Xr, yr, data, yd, Sr, least, int(clf), at if np.ndim(at) == 0 else at[ix]), rats)
        if r < 2 and 0 < least <= len(data):
            # the same columns for all rows
            kw.update(S=ones_([S[0]] * n), refine=1)
            z = [a, b][rng.randint(2)]
            if clf:
                g = rec.group(case, 'psdp', **kw)
                rec.add(g, 'compute_sdp_clf_shaff', lambda: z.compute_sdp_clf_shaff(Xr, yr, data, yd, S[0], least), lambda q: rats(q[:, 0]))
            else:
                v = float(rng.randint(0, 10)) / 4
                kw['t'] = rats(np.stack([y - v, y + v], axis=1))
                g = rec.group(case, 'psdp', **kw)
                rec.add(g, 'compute_sdp_shaff', lambda: z.compute_sdp_shaff(Xr, yr, v * v, data, yd, S[0], least), lambda q: rats(q[:, 0]))
            g = rec.group(case, 'pexp', **kw)
            rec.add(g, 'compute_exp_shaff', lambda: z.compute_exp_shaff(Xr, data, yd, S[0], least), lambda q: rats(q[:, 0]))
    return case


def ones_(S):
    return [one(s) for s in S]


def quantile(rng, rec, idx, tier):
    case, trees, data, yd, X, y, ix = dict_case(rng, 'pquantile', idx, False, distinct=True)
    a, b = ACVTree({"trees": trees}, data), ACVTreeAgnostic({"trees": trees}, data)
    m, n = case['m'], len(X)
    Xr, yr = X[ix], y[ix]
    for r in range(3):
        S = sets(rng, m, n)
        if r == 2:
            S = [S[0]] * n
        Sr = pick(S, ix)
        least = int([1, 2, 3, 5][rng.randint(4)])
        q = [95., 5., 50., 0., 100., float(rng.randint(1, 100))][rng.randint(6)]
        kw = dict(S=ones_(S), least=least, clf=0, q=rat(q), tol='1/1000')
        g = rec.group(case, 'pquantile', diff=0, **kw)
        if least <= len(data):
            rec.add(g, 'compute_quantile_rf', lambda: a.compute_quantile_rf(Xr, yr, data, yd, Sr, least, 0, 20, q), rats)
            rec.add(g, 'ACVTreeAgnostic.compute_quantile_rf', lambda: b.compute_quantile_rf(Xr, yr, data, yd, Sr, least, 0, 20, q), rats)
            if r == 2:
                rec.add(g, 'compute_quantile_shaff', lambda: [a, b][rng.randint(2)].compute_quantile_shaff(Xr, data, yd, S[0], least, q), lambda q: rats(q[:, 0]))
        g = rec.group(case, 'pquantile', diff=1, **kw)
        rec.add(g, 'ACVTreeAgnostic.compute_quantile_diff_rf', lambda: b.compute_quantile_diff_rf(Xr, yr, data, yd, Sr, least, 0, 20, q), rats)
        rec.add(g, 'compute_quantile_diff_rf', lambda: a.compute_quantile_diff_rf(Xr, yr, data, yd, Sr, least, 0, 20, q), rats)
    return case


def enc_rule(r):
    v, b = r
    return dict(value=rats(v), rule=boxes(b))


def enc_w(r):
    v, w = r
    return dict(value=rats(v), w=rats(w))


def t_of(rng, a, clf, X, y):
    """(keyword for the API, intervals of the distinct rows): ACXplainer takes the quantiles of its forest by default."""
    if clf:
        return None, None
    if rng.rand() < .3:
        return None, np.asarray(a.model.predict_quantiles(X, quantiles=[0.05, 0.95]), dtype=float)
    return interval2(rng, y)


def interval2(rng, y):
    lo = y - rng.randint(-2, 9, size=len(y)) / 4.0
    iv = np.stack([lo, lo + rng.randint(0, 17, size=len(y)) / 4.0], axis=1)
    return 1, iv


def acxest(rng, rec, idx, tier):
    """Estimates, rules and weights of a fitted ACXplainer."""
    clf = bool(idx % 2)
    case, a, data, yd, X, y, ix = acx_case(rng, 'pacx', idx, clf)
    if rng.rand() < .4:
        # other rows than those of the fit
        k = rng.permutation(len(data))[:rng.randint(1, len(data))]
        data, yd = data[k], yd[k]
        case['data'], case['yd'] = rows(data), rats(yd)
    m, n = case['m'], len(X)
    Xr, yr = X[ix], y[ix]
    for r in range(3):
        S = sets(rng, m, n, *((m, m) if rng.rand() < .2 else ()))
        Sr = pick(S, ix)
        least = int([0, 1, 2, 3, 5, 8][rng.randint(6)])
        t, iv = t_of(rng, a, clf, X, y)
        tr = None if t is None else iv[ix]
        kw = dict(S=ones_(S), least=least, clf=int(clf))
        if iv is not None:
            kw['t'] = rats(iv)
        down, up = (iv[ix][:, 0].copy(), iv[ix][:, 1].copy()) if iv is not None else (yr.copy(), yr.copy())
        args = (data, yd, Sr, least)
        for kind in ('sdp', 'ddp', 'cdp'):
            du = (down, up) if kind == 'cdp' else ()
            kt = {} if kind == 'cdp' else dict(t=tr)
            g = rec.group(case, 'psdp', kind=kind, **kw)
            rec.add(g, 'compute_%s_rf' % kind, lambda: getattr(a, 'compute_%s_rf' % kind)(Xr, yr, *du, *args, **kt), rats)
            g = rec.group(case, 'prule', kind=kind, **kw)
            rec.add(g, 'compute_%s_rule' % kind, lambda: getattr(a, 'compute_%s_rule' % kind)(Xr, yr, *du, *args, **kt), enc_rule)
            if kind != 'sdp':
                g = rec.group(case, 'pweights', kind=kind, **kw)
                rec.add(g, 'compute_%s_weights' % kind, lambda: getattr(a, 'compute_%s_weights' % kind)(Xr, yr, *du, *args, **kt), enc_w)
                if r == 0:
                    rec.add(g, 'compute_%s_weights verbose' % kind, lambda: getattr(a, 'compute_%s_weights' % kind)(Xr, yr, *du, *args, verbose=True, **kt), enc_w)
        g = rec.group(case, 'pexp', **kw)
        rec.add(g, 'compute_exp_rf', lambda: a.compute_exp_rf(Xr, yr, *args), rats)
        at = y if rng.rand() < .5 else rng.randint(-8, 9, size=n) / 4.0
        g = rec.group(case, 'pcdf', at=rats(at), **kw)
        rec.add(g, 'compute_cdf_rf', lambda: a.compute_cdf_rf(Xr, yr, *args, t=None if at is y else at[ix]), rats)
    return case


def enc_max(r):
    v, b, al, dr, w = r
    return dict(value=rats(v), rule=boxes(b), all=rats(al), drule=boxes(dr), w=rats(w))


def acxmax(rng, rec, idx, tier):
    """Maximal rules of a fitted ACXplainer."""
    clf = bool(idx % 2)
    case, a, data, yd, X, y, ix = acx_case(rng, 'pmax', idx, clf, n=(10, 22))
    X, y, ix = X[:2], y[:2], np.arange(min(2, len(X)))
    case['X'], case['y'], case['rows'] = rows(X), rats(y), one(ix)
    b = ACVTreeAgnostic({"trees": [ranger_tree(e.tree_) for e in a.model.estimators_]}, data)
    m, n = case['m'], len(X)
    probes = rows(models.points(rng, data, 12))
    for r in range(2):
        S = sets(rng, m, n, 1)
        least = int([1, 2, 3, 5][rng.randint(4)])
        t, iv = t_of(rng, a, clf, X, y)
        tr = None if t is None else iv
        pi = [.4, .5, .6, .7, .8, .9][rng.randint(6)]
        kw = dict(S=ones_(S), least=least, clf=int(clf), pi=rat(pi), probes=probes)
        if iv is not None:
            kw['t'] = rats(iv)
        for algo2 in (0, 1):
            g = rec.group(case, 'pmax', algo2=algo2, **kw)
            for verbose in (False, True):
                rec.add(g, 'compute_sdp_maxrules algo2=%d verbose=%s' % (algo2, verbose),
                        lambda: a.compute_sdp_maxrules(X, y, data, yd, S, least, t=tr, pi_level=pi, algo2=bool(algo2), verbose=verbose,
                                                       p_best=[.85, .2][rng.randint(2)], n_try=5, batch=4, max_iter=6, max_iter_convergence=4), enc_max)
            if algo2:
                rec.add(g, 'ACVTreeAgnostic.compute_sdp_maxrules', lambda: b.compute_sdp_maxrules(X, y, data, yd, S, least, int(clf), np.zeros((n, 2)) if clf else iv, pi), enc_max)
    return case


def cond_boxes(rng, data, n, m):
    """Boxes around values of the data, some unbounded, some a point."""
    out = np.empty((n, m, 2))
    for i in range(n):
        for j in range(m):
            u, v = sorted(data[rng.randint(len(data), size=2), j] + [0, 0, .125, -.125][rng.randint(4)])
            out[i, j] = (-1e10 if rng.rand() < .25 else u, 1e10 if rng.rand() < .25 else v)
            if rng.rand() < .2:
                out[i, j] = (u, u)
    return out


def acxcond(rng, rec, idx, tier):
    """Estimates given that some columns lie in a box."""
    clf = bool(idx % 2)
    case, a, data, yd, X, y, ix = acx_case(rng, 'pcond', idx, clf)
    m, n = case['m'], len(X)
    Xr, yr = X[ix], y[ix]
    for r in range(3):
        S = sets(rng, m, n)
        Sr = pick(S, ix)
        same = sets(rng, m, 1)
        least = int([0, 1, 2, 3, 5, 8][rng.randint(6)])
        t, iv = t_of(rng, a, clf, X, y)
        tr = None if t is None else iv[ix]
        cond = cond_boxes(rng, data, n, m)
        kw = dict(S=ones_(S), least=least, clf=int(clf), cond=boxes(cond))
        if iv is not None:
            kw['t'] = rats(iv)
        down, up = (iv[ix][:, 0].copy(), iv[ix][:, 1].copy()) if iv is not None else (yr.copy(), yr.copy())
        cr = np.ascontiguousarray(cond[ix])
        args = (data, yd, Sr, cr, least)
        g = rec.group(case, 'pweights', kind='ddp', outside=0, **kw)
        rec.add(g, 'compute_ddp_cond_weights', lambda: a.compute_ddp_cond_weights(Xr, yr, *args, t=tr), enc_w)
        g = rec.group(case, 'pweights', kind='cdp', outside=0, **kw)
        rec.add(g, 'compute_cdp_cond_weights', lambda: a.compute_cdp_cond_weights(Xr, yr, down, up, *args), enc_w)
        g = rec.group(case, 'pweights', kind='ddp', outside=1, **kw)
        rec.add(g, 'compute_ddp_intv_weights', lambda: a.compute_ddp_intv_weights(Xr, yr, *args, t=tr), enc_w)
        g = rec.group(case, 'psdp', kind='ddp', outside=1, **dict(kw, S=ones_(same * n)))
        rec.add(g, 'compute_ddp_intv_same', lambda: a.compute_ddp_intv_same(Xr, yr, data, yd, same[0], cr, least, t=tr), rats)
        g = rec.group(case, 'psdp', kind='cdp', outside=1, **dict(kw, S=ones_(same * n)))
        rec.add(g, 'compute_cdp_intv_same', lambda: a.compute_cdp_intv_same(Xr, yr, data, yd, same[0], cr, least, t=tr), rats)
        g = rec.group(case, 'pweights', kind='cdp', outside=1, **kw)
        rec.add(g, 'compute_cdp_intv_weights', lambda: a.compute_cdp_intv_weights(Xr, yr, *args, t=tr), enc_w)
    return case


def enc_all(r, strip=False):
    s, v, g = r
    s, v = [[list(b) for b in a] for a in s], [list(a) for a in v]
    if strip:
        for k in range(len(s)):
            assert s[k][0] == [-1] and v[k][0] == -1
            s[k], v[k] = s[k][1:], v[k][1:]
    return dict(sets=ints(s, 1), sdps=rats(v), glob=rats(g))


def search(rng, rec, idx, tier):
    """Minimal sufficient sets, and all of them."""
    clf = bool(idx % 2)
    fit = idx % 3 == 2
    wide = not fit and idx % 8 == 6
    if fit:
        case, a, data, yd, X, y, ix = acx_case(rng, 'psearch', idx, clf, n=(10, 25), maxm=5)
    else:
        case, trees, data, yd, X, y, ix = dict_case(rng, 'psearch', idx, clf, maxm=4 if wide else 5, maxtrees=1 if wide else 3, maxdepth=3 if wide else 4, rows_=2 if wide else 3, nb=rng.randint(3, 12), wide=wide)
        a, b = ACVTree({"trees": trees}, data), ACVTreeAgnostic({"trees": trees}, data)
    m, n = case['m'], len(X)
    Xr, yr = X[ix], y[ix]
    if wide:
        used = sorted(set(int(j) for t in trees for j in t['features'] if j >= 0))
        if len(used) < m:
            # the columns searched are those the trees test, then none
            space = used
    for r in range(2):
        C = [[]] if r == 0 or wide else gen_groups(rng, m)
        pi = float(PIS[rng.randint(len(PIS))]) - (.3 if rng.rand() < .3 else 0)
        stop = bool(rng.rand() < .5)
        minimal = int(rng.randint(0, 3)) if rng.rand() < .4 else 1
        if wide and minimal > len(space):
            minimal = 1
        least = int([1, 2, 3, 5][rng.randint(4)])
        kw = dict(C=ones(C), pi=rat(pi), minimal=minimal, least=least, clf=int(clf))
        if wide:
            kw['space'] = one(space)
        if fit:
            t, iv = t_of(rng, a, clf, X, y)
            tk = dict(t=None if t is None else iv[ix])
        else:
            t, iv = interval(rng, y)
            tk = dict(classifier=1) if clf else dict(classifier=0, t=t if t is not None else iv[ix])
        if not clf:
            kw['t'] = rats(iv)
        args = (Xr, yr, data, yd, least)
        sk = dict(C=C, pi_level=pi, minimal=minimal, stop=stop)
        g = rec.group(case, 'psearch', half=int(stop), flip=0, **kw)
        rec.add(g, 'importance_sdp_rf', lambda: a.importance_sdp_rf(*args, **tk, **sk), enc_search)
        if not fit:
            rec.add(g, 'ACVTreeAgnostic.importance_sdp_rf', lambda: b.importance_sdp_rf(*args, **tk, **sk), enc_search)
        g = rec.group(case, 'pall', **kw)
        if not fit:
            rec.add(g, 'ACVTreeAgnostic.sufficient_expl_rf', lambda: b.sufficient_expl_rf(*args, **tk, **sk), lambda r: enc_all(r, True))
        out = []

        def suff():
            out.append(a.sufficient_expl_rf(*args, **tk, **sk))
            return out[0]
        rec.add(g, 'sufficient_expl_rf', suff, lambda r: enc_all(r, not fit))
        if fit and out and minimal > 0:
            g = rec.group(case, 'plocal', sets=[ones_(s) for s in out[0][0]])
            rec.add(g, 'compute_local_sdp', lambda: ACXplainer.compute_local_sdp(m, out[0][0]), rats)
        if fit:
            g = rec.group(case, 'psearch', half=int(stop), flip=1, kind='ddp', **kw)
            rec.add(g, 'importance_ddp_rf', lambda: a.importance_ddp_rf(*args, **tk, **sk), enc_search)
            down, up = (iv[ix][:, 0].copy(), iv[ix][:, 1].copy()) if iv is not None else (yr.copy(), yr.copy())
            g = rec.group(case, 'psearch', half=int(stop), flip=1, kind='cdp', **kw)
            rec.add(g, 'importance_cdp_rf', lambda: a.importance_cdp_rf(Xr, yr, down, up, data, yd, least, **sk), enc_search)
            g = rec.group(case, 'pall', kind='ddp', **kw)
            rec.add(g, 'sufficient_cxpl_rf', lambda: a.sufficient_cxpl_rf(*args, **tk, **sk), enc_all)
            cond = cond_boxes(rng, data, n, m)
            g = rec.group(case, 'psearch', half=int(stop), flip=0, kind='ddp', cond=boxes(cond), outside=1, **kw)
            rec.add(g, 'importance_ddp_intv', lambda: a.importance_ddp_intv(Xr, yr, data, yd, np.ascontiguousarray(cond[ix]), least, **tk, **sk), enc_search)
            g = rec.group(case, 'psearch', half=int(stop), flip=0, kind='cdp', cond=boxes(cond), outside=1, **kw)
            rec.add(g, 'importance_cdp_intv', lambda: a.importance_cdp_intv(Xr, yr, data, yd, np.ascontiguousarray(cond[ix]), least, **tk, **sk), enc_search)
    return case


if __name__ == '__main__':
    main(dict(ptree=tree, pquantile=quantile, pacx=acxest, pcond=acxcond, pmax=acxmax, psearch=search))
