"""Leaf estimators: Shapley values, Active Shapley values, conditional expectations, Same Decision Probabilities."""
from common import *
from acv_explainers import ACVTree, ACXplainer
import pandas as pd
from acv_explainers.utils import get_active_null_coalition_list, get_null_coalition
import models, stubs


def leaf_case(rng, name, idx, d=None, proba=False, maxm=5, maxtrees=4, maxdepth=3, rows_=3, nb=None, mono=None):
    m = rng.randint(2, maxm + 1)
    nt = rng.randint(1, maxtrees + 1)
    d = d or (1 if rng.rand() < .6 else rng.randint(2, 4))
    if proba:
        d = rng.randint(2, 4)

        def leafval():
            w = rng.randint(0, 5, size=d).astype(float)
            if w.sum() == 0:
                w[rng.randint(d)] = 1
            return w / w.sum() / nt
    else:
        def leafval():
            return rng.randint(-16, 17, size=d) / 4.0
    trees = []
    for _ in range(nt):
        pool = list(rng.permutation(m)[:rng.randint(1, m + 1)]) if rng.rand() < .4 else None
        trees.append(gen_tree(rng, m, rng.randint(1, maxdepth + 1), d, leafval, pool))
    data = gen_rows(rng, nb or rng.randint(1, 11), m)
    X = gen_rows(rng, rng.randint(1, rows_ + 1), m)
    if rng.rand() < .5:
        X[rng.randint(len(X))] = data[rng.randint(len(data))]
    if rng.rand() < .3:
        j = rng.randint(m)
        X[:, j] = data[rng.randint(len(data)), j]
    rescale(rng, trees, data, X)
    ix = order(rng, len(X))
    case = dict(id='%s-%d' % (name, idx), m=m, trees=[spec_tree(t) for t in trees], data=rows(data), X=rows(X), rows=one(ix), calls=[])
    case['_ix'], case['_X'] = ix, X
    return case, trees, data, X[ix]


def order(rng, n):
    """The rows of a call: the distinct rows once, or a longer batch of repetitions."""
    r = rng.rand()
    if r < .6:
        return np.arange(n)
    return rng.randint(n, size=[1, 9, 40][rng.randint(3)])


def shap(rng, rec, idx, tier, grouped=False):
    case, trees, data, X = leaf_case(rng, 'shap' if not grouped else 'group', idx, maxm=5 if tier == 'quick' else 6,
                                     maxdepth=3 if tier == 'quick' else 4)
    m = case['m']
    C = [[]]
    if grouped:
        while C == [[]]:
            C = gen_groups(rng, m)
    a = ACVTree({"trees": trees}, data)
    g = rec.group(case, 'shap', C=ones(C))
    rec.add(g, 'shap_values', lambda: a.shap_values(X, C) if grouped else a.shap_values(X), rats)
    rec.add(g, 'shap_values_nopa', lambda: a.shap_values_nopa(X, C), rats)
    for mt in (True, False):
        b = []

        def mk():
            b.append(ACVTree({"trees": trees}, data, cache=True, C=C, multi_threads=mt))
            return b[0].shap_values(X, C)
        rec.add(g, 'cache=True, multi_threads=%s' % mt, mk, rats)
        if b:
            rec.add(g, 'shap_values_cache_nopa', lambda: b[0].shap_values_cache_nopa(X, C), rats)
    rec.add(g, 'py_shap_values', lambda: a.py_shap_values(X, C), rats)
    rec.add(g, 'py_shap_valuesv2', lambda: a.py_shap_valuesv2(X, C), rats)
    return case


def group(rng, rec, idx, tier):
    return shap(rng, rec, idx, tier, True)



def active(rng, rec, idx, tier):
    """Active Shapley values: the same active and null features for all rows."""
    case, trees, data, X = leaf_case(rng, 'active', idx)
    m = case['m']
    a = ACVTree({"trees": trees}, data)
    for r in range(3):
        C = gen_groups(rng, m) if r == 2 else [[]]
        units = [list(c) for c in C if c] + [[j] for j in range(m) if not any(j in c for c in C)]
        units = [units[k] for k in rng.permutation(len(units))]
        k = rng.randint(1, len(units) + 1)
        A = [j for u in units[:k] for j in u]
        N = [j for u in units[k:] for j in u]
        Cg = [c for c in C if c and c[0] in A] or [[]]
        if r == 2 and rng.rand() < .5:
            Cg = C
        if r == 2 and Cg == [[]]:
            continue
        g = rec.group(case, 'active', A=one(A), N=one(N), C=ones(Cg))
        rec.add(g, 'shap_values_acv', lambda: a.shap_values_acv(X, np.array(A, dtype=int), np.array(N, dtype=int), Cg), rats)
        rec.add(g, 'shap_values_acv_nopa', lambda: a.shap_values_acv_nopa(X, np.array(A, dtype=int), np.array(N, dtype=int), Cg), rats)
        rec.add(g, 'py_shap_values_acv', lambda: a.py_shap_values_acv(X, A, N, Cg), rats)
    return case


def adaptive(rng, rec, idx, tier):
    case, trees, data, X = leaf_case(rng, 'adaptive', idx)
    m = case['m']
    if rng.rand() < .5:
        # equal rows with other active columns
        k = rng.randint(len(case['X']), size=rng.randint(2, 5))
        case['_X'] = case['_X'][k]
        case['X'], case['_ix'] = rows(case['_X']), np.arange(len(k))
        case['rows'], X = one(case['_ix']), case['_X']
    n = len(case['X'])
    a = ACVTree({"trees": trees}, data)
    for r in range(3):
        C = [[]] if r < 2 else gen_groups(rng, m)
        size = np.full(n, rng.randint(1, m + 1)) if rng.rand() < .5 else rng.randint(1, m + 1, size=n)
        perm = np.array([rng.permutation(m) for _ in range(n)])
        if r == 2:
            # the active columns are those of some of the groups and single columns
            players = [list(c) for c in C if len(c)] + [[j] for j in range(m) if not any(j in c for c in C)]
            for i in range(n):
                P = [players[k] for k in rng.permutation(len(players))]
                k = rng.randint(1, len(P) + 1)
                size[i] = sum(map(len, P[:k]))
                on = [j for p in P[:k] for j in p]
                perm[i] = [on[j] for j in rng.permutation(len(on))] + [j for p in P[k:] for j in p]
        S_star = -np.ones((n, m), dtype=int)
        N_star = -np.ones((n, m), dtype=int)
        for i in range(n):
            S_star[i, :size[i]] = perm[i, :size[i]]
            N_star[i, size[i]:] = perm[i, size[i]:]
        if r == 0:
            S_star, N_star = perm.copy(), perm.copy()
        S_star, N_star, ssize = S_star[case['_ix']], N_star[case['_ix']], size[case['_ix']]
        g = rec.group(case, 'adaptive', A=[one(perm[i, :size[i]]) for i in range(n)], N=[one(perm[i, size[i]:]) for i in range(n)], C=ones(C))
        rec.add(g, 'shap_values_acv_adap', lambda: a.shap_values_acv_adap(X, S_star, N_star, ssize, C), rats)
        rec.add(g, 'shap_values_acv_adap_nopa', lambda: a.shap_values_acv_adap_nopa(X, S_star, N_star, ssize, C), rats)
    return case


def shapnorm(rng, rec, idx, tier):
    case, trees, data, X = leaf_case(rng, 'shapnorm', idx)
    m = case['m']
    a = ACVTree({"trees": trees}, data)
    for C in ([[]], gen_groups(rng, m)):
        g = rec.group(case, 'shapnorm', C=ones(C))
        rec.add(g, 'shap_values_normalized', lambda: a.shap_values_normalized(X, C), rats)
        for mt in (True, False):
            b = []

            def mk():
                b.append(ACVTree({"trees": trees}, data, cache=True, cache_normalized=True, C=C, multi_threads=mt))
                return b[0].shap_values_normalized(X, C)
            rec.add(g, 'cache_normalized=True, multi_threads=%s' % mt, mk, rats)
            if b:
                rec.add(g, 'shap_values_normalized_cache_nopa', lambda: b[0].shap_values_normalized_cache_nopa(X, C), rats)
    return case


def subset(rng, m, lo=0, hi=None):
    k = rng.randint(lo, (m if hi is None else hi) + 1)
    return [int(j) for j in rng.permutation(m)[:k]]


def exp(rng, rec, idx, tier):
    case, trees, data, X = leaf_case(rng, 'exp', idx, maxm=6, rows_=5)
    m = case['m']
    a = ACVTree({"trees": trees}, data)
    for r in range(5):
        S = np.array([[], list(range(m))][r] if r < 2 else subset(rng, m, 1), dtype=int)
        g = rec.group(case, 'exp', S=one(S))
        rec.add(g, 'compute_exp', lambda: a.compute_exp(X, S, data), rats)
        rec.add(g, 'compute_exp_nopa', lambda: a.compute_exp_nopa(X, S, data), rats)
        rec.add(g, 'py_compute_exp', lambda: a.py_compute_exp(X, S, data), rats)
        g = rec.group(case, 'expcat', S=one(S))
        rec.add(g, 'compute_exp_cat', lambda: a.compute_exp_cat(X, S, data), rats)
        rec.add(g, 'compute_exp_cat_nopa', lambda: a.compute_exp_cat_nopa(X, S, data), rats)
        rec.add(g, 'py_compute_exp_cat', lambda: a.py_compute_exp_cat(X, S, data), rats)
        g = rec.group(case, 'expnorm', S=one(S))
        rec.add(g, 'compute_exp_normalized', lambda: a.compute_exp_normalized(X, S, data), rats)
        rec.add(g, 'compute_exp_normalized_nopa', lambda: a.compute_exp_normalized_nopa(X, S, data), rats)
    return case


def sdp(rng, rec, idx, tier):
    case, trees, data, X = leaf_case(rng, 'sdp', idx, proba=True, maxm=5, rows_=5, nb=rng.randint(3, 15))
    m = case['m']
    a = ACVTree({"trees": trees}, data)
    a.model = Proba(trees)
    case['fx'] = ints(a.model.predict_proba(case['_X']).argmax(1), 1)
    case['yp'] = ints(a.model.predict_proba(data).argmax(1), 1)
    for r in range(5):
        S = np.array([[], list(range(m))][r] if r < 2 else subset(rng, m, 1, m - 1), dtype=int)
        g = rec.group(case, 'sdp', S=one(S))
        rec.add(g, 'compute_sdp_clf', lambda: a.compute_sdp_clf(X, S, data), rats)
        rec.add(g, 'compute_sdp_clf_nopa', lambda: a.compute_sdp_clf_nopa(X, S, data), rats)
        g = rec.group(case, 'sdpcat', S=one(S))
        rec.add(g, 'compute_sdp_clf_cat', lambda: a.compute_sdp_clf_cat(X, S, data), rats)
        rec.add(g, 'compute_sdp_clf_cat_nopa', lambda: a.compute_sdp_clf_cat_nopa(X, S, data), rats)
    return case


def enc_swing(r):
    phi, sw, prop = r
    return dict(phi=rats(phi), swings=rats(sw), prop=rats(prop))


def swing(rng, rec, idx, tier):
    """Swing Shapley values."""
    if idx % 4 == 3:
        kind = CLASSIFIERS[(idx // 4) % len(CLASSIFIERS)]
        case, X, data, a, tl = fit_case(rng, 'swing', idx, kind)
    else:
        case, trees, data, X = leaf_case(rng, 'swing', idx, proba=True, maxm=4, rows_=4, nb=rng.randint(3, 13))
        a = ACVTree({"trees": trees}, data)
        a.model = Proba(trees)
        case['fx'] = ints(a.model.predict_proba(case['_X']).argmax(1), 1)
        case['yp'] = ints(a.model.predict_proba(data).argmax(1), 1)
        tl = {}
    m = case['m']
    for r in range(2):
        C = [[]] if r == 0 else gen_groups(rng, m)
        if r == 1 and rng.rand() < .1:
            C = [[int(j) for j in rng.permutation(m)]]
        pi = float(PIS[rng.randint(len(PIS))]) if r else .9
        g = rec.group(case, 'swing', C=ones(C), pi=rat(pi), sum=0, **tl)
        rec.add(g, 'swing_sv_clf', lambda: a.swing_sv_clf(X, data, C, pi), enc_swing)
        rec.add(g, 'swing_sv_clf_nopa', lambda: a.swing_sv_clf_nopa(X, data, C, pi), enc_swing)
        if pi == .9:
            rec.add(g, 'demo_swing_sv_clf', lambda: a.demo_swing_sv_clf(X, data, C), enc_swing)
        g = rec.group(case, 'swing', C=ones(C), pi=rat(pi), sum=1, **tl)
        rec.add(g, 'swing_sv_clf_slow', lambda: a.swing_sv_clf_slow(X, data, C, pi), enc_swing)
    return case


def enc_search(r):
    g, s, n, v = r
    return dict(glob=rats(g), sets=ints(s, 1), size=ints(n), sdp=rats(v))


PIS = [0.9, 0.8, 0.95, 0.7, 0.6, 0.99]


def search(rng, rec, idx, tier):
    """Minimal sufficient sets of a classifier."""
    wide = idx % 8 == 7
    case, trees, data, X = leaf_case(rng, 'search', idx, proba=True, maxm=5, rows_=4, nb=rng.randint(3, 15), mono=wide)
    if wide:
        # more than ten columns: the search keeps to the columns that the trees test most
        case, trees, data, X = widen(rng, case, trees, data, X)
    m = case['m']
    a = ACVTree({"trees": trees}, data)
    a.model = Proba(trees)
    case['fx'] = ints(a.model.predict_proba(case['_X']).argmax(1), 1)
    case['yp'] = ints(a.model.predict_proba(data).argmax(1), 1)
    for r in range(3):
        C = [[]] if r == 0 else gen_groups(rng, m)
        pi = float(PIS[rng.randint(len(PIS))])
        stop = bool(rng.rand() < .6)
        minimal = int(rng.randint(1, 3)) if rng.rand() < .3 else 1
        cg = ones(C)
        kw = dict(C=cg, pi=rat(pi), minimal=minimal, sum=0)
        g = rec.group(case, 'search', half=int(stop), **kw)
        rec.add(g, 'importance_sdp_clf', lambda: a.importance_sdp_clf(X, data, C, pi, minimal, stop), enc_search)
        if m <= 10:
            rec.add(g, 'importance_sdp_clf_greedy', lambda: a.importance_sdp_clf_greedy(X, data, C, pi, minimal, stop), enc_search)
            g = rec.group(case, 'search', half=1, **kw)
            rec.add(g, 'importance_sdp_clf_nopa', lambda: a.importance_sdp_clf_nopa(X, data, C, pi, minimal), enc_search)
            g = rec.group(case, 'search', half=0, **dict(kw, sum=1))
            rec.add(g, 'importance_sdp_clf_ptrees', lambda: a.importance_sdp_clf_ptrees(X, data, C, pi, minimal), enc_search)
        space = [int(j) for j in rng.permutation(m)[:rng.randint(max(1, minimal), min(m, 6) + 1)]]
        g = rec.group(case, 'search', half=int(stop), space=one(space), **kw)
        rec.add(g, 'importance_sdp_clf_search', lambda: a.importance_sdp_clf_search(X, data, C, pi, minimal, space, stop), enc_search)
    return case


def enc_split(r):
    return dict(S=[one([j for j in row if j >= 0]) for row in r[0]], N=[one([j for j in row if j >= 0]) for row in r[1]])


def pipeline(rng, rec, idx, tier):
    """From the search to the Active Shapley values, through the helpers that split the columns."""
    case, trees, data, X = leaf_case(rng, 'pipeline', idx, proba=True, rows_=4, nb=rng.randint(3, 15))
    m, n = case['m'], len(case['X'])
    a = ACVTree({"trees": trees}, data)
    a.model = Proba(trees)
    case['fx'] = ints(a.model.predict_proba(case['_X']).argmax(1), 1)
    case['yp'] = ints(a.model.predict_proba(data).argmax(1), 1)
    X0 = case['_X']
    case['_ix'] = np.arange(n)
    case['rows'] = one(case['_ix'])
    for r in range(2):
        C = [[]] if r == 0 else gen_groups(rng, m)
        pi = float(PIS[rng.randint(len(PIS))])
        out = []

        def go():
            out.append(a.importance_sdp_clf(X0, data, C, pi))
            return out[0]
        g = rec.group(case, 'search', half=1, C=ones(C), pi=rat(pi), minimal=1, sum=0)
        rec.add(g, 'importance_sdp_clf', go, enc_search)
        if not out:
            continue
        sdp_index, size = out[0][1], out[0][2]
        A = [[int(j) for j in sdp_index[i, :size[i]]] for i in range(n)]
        g = rec.group(case, 'split', A=ones_(A))
        rec.add(g, 'get_active_null_coalition_list', lambda: get_active_null_coalition_list(sdp_index, size), enc_split)
        rec.add(g, 'get_null_coalition', lambda: get_null_coalition(sdp_index, size), enc_split)
        N = [[j for j in range(m) if j not in s] for s in A]
        g = rec.group(case, 'adaptive', A=ones_(A), N=ones_(N), C=ones(C))

        def adap(f):
            s, z = get_null_coalition(sdp_index, size)
            return f(X=X0, S_star=s, N_star=z, size=size, C=C)
        rec.add(g, 'shap_values_acv_adap', lambda: adap(a.shap_values_acv_adap), rats)
        rec.add(g, 'shap_values_acv_adap_nopa', lambda: adap(a.shap_values_acv_adap_nopa), rats)
        i = int(rng.randint(n))
        g = rec.group(case, 'active', A=one(A[i]), N=one(N[i]), C=ones(C))

        def same(f):
            s, z = get_active_null_coalition_list(sdp_index, size)
            return f(X=X0, C=C, S_star=np.array(s[i]), N_star=np.array(z[i], dtype=int))
        rec.add(g, 'shap_values_acv', lambda: same(a.shap_values_acv), rats)
    # tables that no search returns
    n = int(rng.randint(1, 7))
    size = rng.randint(0, m + 1, size=n)
    T = -np.ones((n, m), dtype=int)
    for i in range(n):
        T[i, :size[i]] = rng.permutation(m)[:size[i]]
    g = rec.group(case, 'split', A=ones_([[int(j) for j in T[i, :size[i]]] for i in range(n)]))
    rec.add(g, 'get_active_null_coalition_list', lambda: get_active_null_coalition_list(T, size), enc_split)
    rec.add(g, 'get_null_coalition', lambda: get_null_coalition(T, size), enc_split)
    return case


def ones_(S):
    return [one(s) for s in S]


def widen(rng, case, trees, data, X):
    """The same model on more than ten columns, of which it tests some."""
    m, big = case['m'], int(rng.randint(11, 14))
    cols = rng.permutation(big)[:m]

    def wide(Z):
        W = gen_rows(rng, len(Z), big)
        W[:, cols] = Z
        return W
    for t in trees:
        t['features'] = np.where(t['features'] >= 0, cols[t['features']], t['features'])
    data, X0, ix = wide(data), wide(case['_X']), case['_ix']
    case.update(m=big, trees=[spec_tree(t) for t in trees], data=rows(data), X=rows(X0), _X=X0)
    return case, trees, data, X0[ix]


CLASSIFIERS = [k for k in models.KINDS if 'Classifier' in k]


def fit_case(rng, name, idx, kind):
    model, data, y, trees, off, own, tol = models.fitted(rng, kind)
    m = data.shape[1]
    X = models.points(rng, data, 4)
    bg = data[rng.permutation(len(data))[:rng.randint(4, 15)]]
    if trees[0]['values'].shape[1] == 1:
        for t in trees:
            p = 1 / (1 + np.exp(-t['values']))
            t['values'] = np.concatenate([1 - p, p], axis=1) / len(trees)
    case = dict(id='%s-%d-%s' % (name, idx, kind), m=m, trees=[spec_tree(t) for t in trees], data=rows(bg), X=rows(X), rows=one(range(len(X))), calls=[])
    case['fx'] = ints(model.predict_proba(X).argmax(1), 1)
    case['yp'] = ints(model.predict_proba(bg).argmax(1), 1)
    tl = dict(tol='1/10000') if kind.startswith('XGB') else {}  # XGBoost's trees are single-precision
    a = ACVTree(model, bg)
    return case, X, bg, a, tl


def fitclf(rng, rec, idx, tier):
    """Same Decision Probabilities and searches on fitted classifiers (boosted binary models: one column by class, from
    the sigmoid of each tree)."""
    case, X, bg, a, tl = fit_case(rng, 'fitclf', idx, CLASSIFIERS[idx % len(CLASSIFIERS)])
    m = case['m']
    for r in range(3):
        S = np.array([[], list(range(m))][r] if r < 2 and rng.rand() < .3 else subset(rng, m, 1, m - 1), dtype=int)
        g = rec.group(case, 'sdp', S=one(S), **tl)
        rec.add(g, 'compute_sdp_clf', lambda: a.compute_sdp_clf(X, S, bg), rats)
        rec.add(g, 'compute_sdp_clf_nopa', lambda: a.compute_sdp_clf_nopa(X, S, bg), rats)
        g = rec.group(case, 'sdpcat', S=one(S), **tl)
        rec.add(g, 'compute_sdp_clf_cat', lambda: a.compute_sdp_clf_cat(X, S, bg), rats)
        rec.add(g, 'compute_sdp_clf_cat_nopa', lambda: a.compute_sdp_clf_cat_nopa(X, S, bg), rats)
    pi = float(PIS[rng.randint(len(PIS))])
    kw = dict(C=[], pi=rat(pi), minimal=1, sum=0, **tl)
    g = rec.group(case, 'search', half=1, **kw)
    rec.add(g, 'importance_sdp_clf', lambda: a.importance_sdp_clf(X, bg, pi_level=pi), enc_search)
    rec.add(g, 'importance_sdp_clf_greedy', lambda: a.importance_sdp_clf_greedy(X, bg, pi_level=pi), enc_search)
    rec.add(g, 'importance_sdp_clf_nopa', lambda: a.importance_sdp_clf_nopa(X, bg, pi_level=pi, minimal=1), enc_search)
    rec.add(g, 'importance_sdp_clf_search', lambda: a.importance_sdp_clf_search(X, bg, pi_level=pi, search_space=list(range(m))), enc_search)
    g = rec.group(case, 'search', half=0, **dict(kw, sum=1))
    rec.add(g, 'importance_sdp_clf_ptrees', lambda: a.importance_sdp_clf_ptrees(X, bg, pi_level=pi, minimal=1), enc_search)
    return case


def regsdp(rng, rec, idx, tier, searching=False):
    """Same Decision Probabilities in regression."""
    case, trees, data, X = leaf_case(rng, 'regsdp' if not searching else 'regsearch', idx, d=1, maxm=4, maxtrees=3, maxdepth=2, rows_=3, nb=rng.randint(3, 11))
    m = case['m']
    model = {"trees": trees}
    if rng.rand() < .3:
        # a constant added to the predictions changes no distance
        model['base_offset'] = np.array([float(rng.randint(-8, 9)) / 4])
    a = ACVTree(model, data)
    for r in range(2 if searching else 4):
        tX = float(rng.randint(0, 200)) / 16 if rng.rand() < .8 else float(rng.randint(1, 40)) ** 2 / 16
        kw = dict(tX=rat(tX), small='1/100')
        if not searching:
            S = np.array(subset(rng, m, 0), dtype=int)
            g = rec.group(case, 'regsdp', S=one(S), cat=0, **kw)
            rec.add(g, 'compute_sdp_reg', lambda: a.compute_sdp_reg(X, tX, S, data), rats)
            rec.add(g, 'compute_sdp_reg_nopa', lambda: a.compute_sdp_reg_nopa(X, tX, S, data), rats)
            g = rec.group(case, 'regsdp', S=one(S), cat=1, **kw)
            rec.add(g, 'compute_sdp_reg_cat', lambda: a.compute_sdp_reg_cat(X, tX, S, data), rats)
            rec.add(g, 'compute_sdp_reg_cat_nopa', lambda: a.compute_sdp_reg_cat_nopa(X, tX, S, data), rats)
            continue
        C = [[]] if r == 0 else gen_groups(rng, m)
        pi = float(PIS[rng.randint(len(PIS))])
        stop = bool(rng.rand() < .5)
        minimal = int(rng.randint(0, 2))
        kw.update(C=ones(C), pi=rat(pi), minimal=minimal)
        g = rec.group(case, 'regsearch', half=int(stop), cat=0, **kw)
        rec.add(g, 'importance_sdp_reg', lambda: a.importance_sdp_reg(X, tX, data, C, pi, minimal, stop), enc_search)
        if stop:
            rec.add(g, 'importance_sdp_reg_nopa', lambda: a.importance_sdp_reg_nopa(X, tX, data, C, pi, minimal), enc_search)
        g = rec.group(case, 'regsearch', half=int(stop), cat=1, **kw)
        rec.add(g, 'importance_sdp_reg_cat', lambda: a.importance_sdp_reg_cat(X, tX, data, C, pi, minimal, stop), enc_search)
        if stop:
            rec.add(g, 'importance_sdp_reg_cat_nopa', lambda: a.importance_sdp_reg_cat_nopa(X, tX, data, C, pi, minimal), enc_search)
    return case


def regsearch(rng, rec, idx, tier):
    return regsdp(rng, rec, idx, tier, True)


class Model:
    """Any predictor: the sum of the outputs of some trees, exact."""

    def __init__(self, trees):
        self.p = Proba(trees)

    def predict(self, X):
        return np.asarray(self.p.predict_proba(X))[:, 0]


def marginal(rng, rec, idx, tier):
    """Marginal Same Decision Probabilities and searches of any classifier or regressor."""
    clf = rng.rand() < .5
    labels = rng.randint(2, 4)
    case, trees, data, X = leaf_case(rng, 'marginal', idx, d=1, maxm=5, maxtrees=1 if clf else 3, rows_=4, nb=rng.randint(2, 13))
    if clf:
        for t in trees:
            t['values'] = rng.randint(labels, size=t['values'].shape).astype(float)
        case['trees'] = [spec_tree(t) for t in trees]
    m = case['m']
    model = Model(trees)
    a = ACVTree({"trees": trees}, data)
    a.model = model
    for r in range(3):
        band = 0.0 if clf else float(rng.randint(0, 30)) / 4
        S = [int(j) for j in rng.permutation(m)[:rng.randint(0, m + 1)]]
        kw = dict(band=rat(band))
        tk = {} if clf else dict(threshold=band)
        g = rec.group(case, 'msdp', S=one(S), **kw)
        for v, o in (('ACVTree', a), ('ACXplainer', ACXplainer)):
            f = getattr(o, 'compute_msdp_clf' if clf else 'compute_msdp_reg')
            rec.add(g, v, lambda: f(X, np.array(S, dtype=int), data, model, **tk), rats, [X, data])
        f = a.compute_msdp_clf if clf else a.compute_msdp_reg
        rec.add(g, 'the model of the explainer', lambda: f(X, np.array(S, dtype=int), data, **tk), rats)
        C = [[]] if r == 0 else gen_groups(rng, m)
        pi = float(PIS[rng.randint(len(PIS))]) - (.3 if rng.rand() < .3 else 0)
        stop = bool(rng.rand() < .5)
        minimal = int(rng.randint(0, 2))
        kw.update(C=ones(C), pi=rat(pi), minimal=minimal, half=int(stop))
        g = rec.group(case, 'msdpsearch', **kw)
        nm = 'importance_msdp_clf' if clf else 'importance_msdp_reg'
        rec.add(g, nm, lambda: getattr(a, nm)(X, data, None, C, pi, minimal, stop=stop, **tk), enc_search)
        rec.add(g, nm + '_search', lambda: getattr(ACXplainer, nm + '_search')(X, data, model, C, minimal, pi, stop=stop, **tk), enc_search)
        space = [int(j) for j in rng.permutation(m)[:rng.randint(1, m + 1)]]
        g = rec.group(case, 'msdpsearch', space=one(space), **kw)
        rec.add(g, nm + '_search', lambda: getattr(a, nm + '_search')(X, data, model, C, minimal, pi, r_search_space=space, stop=stop, **tk), enc_search)
    return case


REGRESSORS = [k for k in models.KINDS if 'Regress' in k or k == 'Booster']


def fitreg(rng, rec, idx, tier):
    """Same Decision Probabilities and searches on fitted regressors."""
    kind = REGRESSORS[idx % len(REGRESSORS)]
    model, data, y, trees, off, own, tol = models.fitted(rng, kind, depth=2)
    m = data.shape[1]
    X = models.points(rng, data, 3)
    bg = data[rng.permutation(len(data))[:rng.randint(4, 12)]]
    case = dict(id='fitreg-%d-%s' % (idx, kind), m=m, trees=[spec_tree(t) for t in trees], data=rows(bg), X=rows(X), rows=one(range(len(X))), calls=[])
    spread = float(np.var(y))
    kw = dict(small=rat(max(spread, .01) / 1000), tol='1/10000' if kind in ('XGBRegressor', 'Booster') else '1/1000000')
    a = ACVTree(model, bg)
    for r in range(3):
        tX = float(rng.rand() * spread)
        S = np.array(subset(rng, m, 0), dtype=int)
        g = rec.group(case, 'regsdp', S=one(S), cat=0, tX=rat(tX), **kw)
        rec.add(g, 'compute_sdp_reg', lambda: a.compute_sdp_reg(X, tX, S, bg), rats)
        rec.add(g, 'compute_sdp_reg_nopa', lambda: a.compute_sdp_reg_nopa(X, tX, S, bg), rats)
        g = rec.group(case, 'regsdp', S=one(S), cat=1, tX=rat(tX), **kw)
        rec.add(g, 'compute_sdp_reg_cat', lambda: a.compute_sdp_reg_cat(X, tX, S, bg), rats)
        rec.add(g, 'compute_sdp_reg_cat_nopa', lambda: a.compute_sdp_reg_cat_nopa(X, tX, S, bg), rats)
    pi = float(PIS[rng.randint(len(PIS))])
    g = rec.group(case, 'regsearch', half=1, cat=0, C=[], pi=rat(pi), minimal=0, tX=rat(tX), **kw)
    rec.add(g, 'importance_sdp_reg', lambda: a.importance_sdp_reg(X, tX, bg, pi_level=pi), enc_search)
    rec.add(g, 'importance_sdp_reg_nopa', lambda: a.importance_sdp_reg_nopa(X, tX, bg, pi_level=pi), enc_search)
    return case


MISSING = ['XGBRegressor', 'XGBClassifier', 'XGBClassifier-multi', 'XGBRanker', 'Booster', 'HistGradientBoostingRegressor', 'dict', 'dict-old', 'gpboost.Booster'] + stubs.LGB


def missing(Z):
    return [[2000000000 if c.v != c.v else c for c in r] for r in rows(Z)]


def ingest(rng, rec, idx, tier):
    """A fitted model is explained through its own trees."""
    kinds = models.KINDS + models.MORE + stubs.KINDS
    kind = kinds[idx % len(kinds)]
    predicts = True
    if kind in stubs.KINDS:
        model, data, y, trees, off, own, tol, predicts = stubs.fitted(rng, kind)
    else:
        model, data, y, trees, off, own, tol = models.fitted(rng, kind)
    m = data.shape[1]
    X = models.points(rng, data)
    d = len(off)
    bg = data[rng.permutation(len(data))[:rng.randint(3, 15)]]
    case = dict(id='ingest-%d-%s' % (idx, kind), m=m, trees=[spec_tree(t) for t in trees], data=rows(bg), X=rows(X), rows=one(range(len(X))), calls=[],
                offset=rats(off))
    a = []
    g = rec.group(case, 'predict', tol=tol)
    shaped = lambda r: rats(np.asarray(r).reshape(len(r), d))

    def mk():
        a.append(ACVTree(model, bg))
        return a[0].predict(X) if predicts else np.array([])
    if predicts:
        rec.add(g, 'predict', mk, shaped)
    else:
        mk()
    if a and predicts:
        rec.add(g, 'predict, row by row', lambda: [np.ravel(a[0].predict(x)) for x in X], shaped)
        rec.add(g, 'predict, data frame', lambda: a[0].predict(pd.DataFrame(X)), shaped)
        if len(trees) > 1:
            k = int(rng.randint(1, len(trees)))
            h = rec.group(case, 'predict', tol=tol, limit=k)
            rec.add(h, 'predict, tree_limit', lambda: a[0].predict(X, tree_limit=k), shaped)
    if own is not None:
        rec.add(g, 'the model itself', lambda: own(X), lambda r: rats(np.asarray(r).reshape(len(X), d)))
    if a and all('children_default' in t for t in trees) and kind in MISSING:
        # missing values go the default way
        Z = X.copy()
        Z[rng.rand(*Z.shape) < .4] = np.nan
        g = rec.group(case, 'missing', tol=tol, X=missing(Z))
        rec.add(g, 'predict, missing values', lambda: a[0].predict(Z), shaped)
        if own is not None:
            rec.add(g, 'the model itself, missing values', lambda: own(Z), shaped)
    if a:
        S = np.array(subset(rng, m, 1), dtype=int)
        g = rec.group(case, 'exp', S=one(S), tol=tol)
        rec.add(g, 'compute_exp', lambda: a[0].compute_exp(X, S, bg), rats)
        
        if len(trees) * 2 ** 3 <= 24:
            g = rec.group(case, 'shap', C=[], tol=tol)
            rec.add(g, 'shap_values', lambda: a[0].shap_values(X), rats)
    return case


if __name__ == '__main__':
    main(dict(shap=shap, group=group, active=active, adaptive=adaptive, shapnorm=shapnorm, exp=exp, sdp=sdp, search=search, fitclf=fitclf, regsdp=regsdp, regsearch=regsearch, fitreg=fitreg, swing=swing, marginal=marginal, ingest=ingest, pipeline=pipeline))
