"""Fitted models of the supported libraries, and their trees read through those libraries."""
from common import *


def dataset(rng, m=None, n=None, classes=2):
    m = m or rng.randint(2, 5)
    n = n or rng.randint(20, 50)
    X = rng.randint(-8, 9, size=(n, m)) / 4.0
    w = rng.randint(-3, 4, size=m)
    s = X.dot(w) + rng.randint(-4, 5, size=n) / 4.0
    q = np.quantile(s, np.linspace(0, 1, classes + 1)[1:-1])
    y = np.digitize(s, q)
    y[:classes] = np.arange(classes)
    if rng.rand() < .5:
        X = X * np.array([1., 2. ** -20, 2. ** 20])[rng.randint(3, size=m)]
    return X, s, y.astype(int)


KINDS = ['DecisionTreeRegressor', 'DecisionTreeClassifier', 'RandomForestRegressor', 'RandomForestClassifier',
         'ExtraTreesRegressor', 'ExtraTreesClassifier', 'GradientBoostingRegressor', 'GradientBoostingClassifier',
         'XGBRegressor', 'XGBClassifier', 'XGBClassifier-multi', 'IsolationForest', 'HistGradientBoostingRegressor',
         'RangerForestClassifier', 'dict', 'Booster']


# (for the conversion only)
MORE = ['XGBRanker', 'dict-old', 'trees', 'GradientBoostingRegressor-loss']


def xgb_trees(booster, d):
    """Trees of an XGBoost model from the model file XGBoost writes: x goes left when x < t."""
    import tempfile
    with tempfile.TemporaryDirectory() as w:
        booster.save_model(os.path.join(w, 'm.json'))
        model = json.load(open(os.path.join(w, 'm.json')))
    trees = []
    for i, t in enumerate(model['learner']['gradient_booster']['model']['trees']):
        cl, cr = np.array(t['left_children']), np.array(t['right_children'])
        cond = np.array(t['split_conditions'], dtype=np.float32)
        v = np.zeros((len(cl), d))
        v[cl < 0, i % d] = cond[cl < 0]
        # the greatest single-precision number below the threshold: x < t iff x <= that, for single-precision x
        thr = np.where(cl >= 0, np.nextafter(cond, np.float32(-np.inf)).astype(float), -2.0)
        trees.append(dict(children_left=cl, children_right=cr, features=np.where(cl >= 0, np.array(t['split_indices']), -2),
                          children_default=np.where(np.array(t['default_left']) != 0, cl, cr), thresholds=thr, values=v))
    return trees


def fitted(rng, kind, size=3, depth=3):
    """(model, data, y, trees for the specification, offset, output of the model itself, tolerance)"""
    import sklearn.tree as T, sklearn.ensemble as E
    multi = 'Classifier' in kind and not kind.startswith(('Gradient', 'Hist')) and kind != 'XGBClassifier' and rng.rand() < .5 or kind.endswith('multi')
    classes = 3 if multi else 2
    X, s, y = dataset(rng, classes=classes)
    seed = int(rng.randint(2 ** 31 - 1))
    n = rng.randint(1, size + 1)
    k = kind.split('-')[0]
    off, tol = None, '1/100000000'
    if k in ('dict', 'trees'):
        d = rng.randint(1, 3)
        m = X.shape[1]
        trees = [gen_tree(rng, m, depth, d, lambda: rng.randint(-16, 17, size=d) / 4.0) for _ in range(n)]
        for t in trees:
            t['children_default'] = np.where(rng.rand(len(t['features'])) < .5, t['children_left'], t['children_right'])
        if k == 'trees':
            from acv_explainers.base_tree import SingleTree
            return [SingleTree(t) for t in trees], X, s, trees, [0.0] * d, None, tol
        model = {'trees': trees}
        if kind == 'dict-old':
            model = {'trees': [dict({c: t[c] for c in t if c.startswith(('child', 'node'))}, feature=t['features'], threshold=t['thresholds'], value=t['values']) for t in trees]}
        off = [0.0] * d
        if rng.rand() < .5:
            off = [float(v) / 4 for v in rng.randint(-8, 9, size=d)]
            model['base_offset'] = np.array(off)
        return model, X, s, trees, off, None, tol
    if k.startswith('DecisionTree'):
        model = getattr(T, k)(max_depth=depth, random_state=seed)
        model.fit(X, y if 'Class' in k else s)
        trees = [tree_of(model.tree_, 1.0, 'Class' in k)]
        own = model.predict_proba if 'Class' in k else model.predict
    elif k.startswith(('RandomForest', 'ExtraTrees')):
        model = getattr(E, k)(n_estimators=n, max_depth=depth, random_state=seed)
        model.fit(X, y if 'Class' in k else s)
        trees = [tree_of(e.tree_, 1.0 / n, 'Class' in k) for e in model.estimators_]
        own = model.predict_proba if 'Class' in k else model.predict
    elif k.startswith('GradientBoosting'):
        model = getattr(E, k)(n_estimators=n, max_depth=depth, random_state=seed, learning_rate=0.3, **(dict(loss=['huber', 'quantile', 'absolute_error', 'lad'][rng.randint(3)], alpha=.8) if kind.endswith('loss') else {}))
        model.fit(X, y if 'Class' in k else s)
        trees = [tree_of(e.tree_, 0.3) for e in model.estimators_[:, 0]]
        own = model.decision_function if 'Class' in k else model.predict
        pr = np.mean(y == 1)
        off = [math.log(pr / (1 - pr))] if 'Class' in k else [float(np.ravel(model.init_.constant_)[0]) if kind.endswith('loss') else float(np.mean(s))]
    elif k.startswith('Hist'):
        # max_depth only: splits of the binned values
        model = getattr(E, k)(max_iter=n, max_depth=depth, min_samples_leaf=3, random_state=seed, early_stopping=False)
        model.fit(X, y if 'Class' in k else s)
        trees = []
        for p in model._predictors:
            nd = p[0].nodes
            leaf = nd['is_leaf'].astype(bool)
            trees.append(dict(children_left=np.where(leaf, -1, nd['left'].astype(int)), children_right=np.where(leaf, -1, nd['right'].astype(int)),
                              features=np.where(leaf, -2, nd['feature_idx'].astype(int)),
                              children_default=np.where(leaf, -1, np.where(nd['missing_go_to_left'] != 0, nd['left'].astype(int), nd['right'].astype(int))),
                              thresholds=nd['num_threshold'].astype(float), values=nd['value'].astype(float).reshape(-1, 1)))
        own = model.decision_function if 'Class' in k else model.predict
        off = [float(np.ravel(model._baseline_prediction)[0])]
    elif k in ('XGBRegressor', 'XGBClassifier', 'XGBRanker', 'Booster'):
        import xgboost
        bs = [0.5, 0.3, 0.7][rng.randint(3)]
        kw = dict(n_estimators=n, max_depth=depth, base_score=bs, learning_rate=0.5, random_state=seed % 1000)
        if k == 'XGBClassifier':
            model = xgboost.XGBClassifier(use_label_encoder=False, eval_metric='logloss', **kw)
            model.fit(X, y)
            booster = model.get_booster()
        elif k == 'XGBRanker':
            model = xgboost.XGBRanker(**kw)
            model.fit(X, np.argsort(np.argsort(s)) // 8, group=[len(X) - 7, 7])
            booster = model.get_booster()
        elif k == 'XGBRegressor':
            model = xgboost.XGBRegressor(**kw)
            model.fit(X, s)
            booster = model.get_booster()
        else:
            model = xgboost.train({'max_depth': depth, 'base_score': bs, 'objective': 'reg:squarederror'}, xgboost.DMatrix(X, label=s), num_boost_round=int(n))
            booster = model
        d = classes if multi else 1
        trees = xgb_trees(booster, d)
        own = lambda Z: booster.predict(xgboost.DMatrix(Z), output_margin=True)
        off = [math.log(bs / (1 - bs))] if k == 'XGBClassifier' and not multi else [bs] * d
        tol = '1/10000'
    elif k == 'IsolationForest':
        from sklearn.ensemble._iforest import _average_path_length as apl
        model = E.IsolationForest(n_estimators=n, max_samples=int(min(16, len(X))), random_state=seed, max_features=float([1.0, .7][rng.randint(2)]))
        model.fit(X)
        trees = []
        for e, feats in zip(model.estimators_, model.estimators_features_):
            t = tree_of(e.tree_)
            depthv = np.zeros(len(t['children_left']))
            for a in range(len(depthv)):
                for c in (t['children_left'][a], t['children_right'][a]):
                    if c >= 0:
                        depthv[c] = depthv[a] + 1
            t['values'] = ((depthv + apl(e.tree_.n_node_samples)) / n).reshape(-1, 1)
            t['features'] = np.where(t['features'] >= 0, feats[np.maximum(t['features'], 0)], -2)
            trees.append(t)
        # the mean path length, from the anomaly score of the model: score = 2 ** (- mean / c)
        own = lambda Z: -np.log2(-model.score_samples(Z)) * apl([model.max_samples_])[0]
    elif k.startswith('Ranger'):
        import skranger.ensemble as R
        model = getattr(R, k)(n_estimators=int(n), max_depth=depth, min_node_size=2, seed=seed % 10000 + 1, **({'enable_tree_details': True}))
        model.fit(X, y if 'Class' in k else s)
        trees = [tree_of(e.tree_, 1.0 / n, 'Class' in k) for e in model.estimators_]
        own = None
    out = None
    if off is None:
        off = [0.0] * trees[0]['values'].shape[1]
    return model, X, (y if 'Class' in k else s), trees, off, own, tol


def points(rng, X, n=6):
    """Rows of the data and rows around them."""
    Z = X[rng.randint(len(X), size=n)].copy()
    for i in range(n):
        if rng.rand() < .6:
            j = rng.randint(X.shape[1])
            gaps = np.diff(np.unique(X[:, j]))
            Z[i, j] += [-1, 1, .5, -4][rng.randint(4)] * (gaps.min() if len(gaps) else .25)
    return Z
