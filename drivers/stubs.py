"""LightGBM models, and models of libraries that are not installed here: classes with the names and the parts the explainers read, in the
documented formats of those libraries (GPBoost model dumps, CatBoost JSON models, Spark tree nodes, NGBoost and
balanced forests of scikit-learn trees)."""
import sys, types
from common import *


def module(name):
    parts = name.split('.')
    for k in range(1, len(parts) + 1):
        q = '.'.join(parts[:k])
        if q not in sys.modules:
            sys.modules[q] = types.ModuleType(q)
            if k > 1:
                setattr(sys.modules['.'.join(parts[:k - 1])], parts[k - 1], sys.modules[q])
    return sys.modules[name]


def new(path, **attrs):
    """An object of the class with that path."""
    mod, name = path.rsplit('.', 1)
    m = module(mod)
    if not hasattr(m, name):
        c = type(name, (), {})
        c.__module__ = mod
        setattr(m, name, c)
    o = getattr(m, name)()
    for k, v in attrs.items():
        setattr(o, k, v)
    return o


# ---------------------------------------------------------------------------------------------------------- LightGBM

def lgb_dump(rng, t, counts, i):
    """dump_model()['tree_info'] entry: inner nodes and leaves numbered apart, in any order."""
    inner = [k for k in range(len(t['features'])) if t['children_left'][k] >= 0]
    leaves = [k for k in range(len(t['features'])) if t['children_left'][k] < 0]
    if not inner:
        return dict(tree_index=i, num_leaves=1, num_cat=0, shrinkage=1, tree_structure=dict(leaf_value=float(t['values'][0, 0])))
    si = {k: int(z) for k, z in zip([0] + [inner[1:][j] for j in rng.permutation(len(inner) - 1)], range(len(inner)))}
    li = {k: int(z) for k, z in zip(leaves, rng.permutation(len(leaves)))}

    def node(k):
        if t['children_left'][k] < 0:
            return dict(leaf_index=li[k], leaf_value=float(t['values'][k, 0]), leaf_weight=float(counts[k]), leaf_count=int(counts[k]))
        return dict(split_index=si[k], split_feature=int(t['features'][k]), split_gain=1.0, threshold=float(t['thresholds'][k]), decision_type='<=',
                    default_left=bool(t['children_default'][k] == t['children_left'][k]), missing_type='NaN', internal_value=0.25, internal_weight=0,
                    internal_count=int(counts[k]), left_child=node(t['children_left'][k]), right_child=node(t['children_right'][k]))
    return dict(tree_index=i, num_leaves=len(leaves), num_cat=0, shrinkage=.1, tree_structure=node(0))


def counts_of(t, data):
    c = np.zeros(len(t['features']))
    for x in data:
        n = 0
        c[0] += 1
        while t['children_left'][n] >= 0:
            n = t['children_left'][n] if x[t['features'][n]] <= t['thresholds'][n] else t['children_right'][n]
            c[n] += 1
    return c


def lgb_trees(infos, m):
    """The trees of LightGBM's own model dump."""
    out = []
    for i in infos:
        cl, cr, cd, ft, th, v = [], [], [], [], [], []

        def grow(n):
            k = len(cl)
            for s in (cl, cr, cd, ft, th, v):
                s.append(None)
            if 'leaf_value' in n:
                cl[k], cr[k], cd[k], ft[k], th[k], v[k] = -1, -1, -1, -2, -2., [n['leaf_value']]
            else:
                assert n['decision_type'] == '<='
                ft[k], th[k], v[k] = n['split_feature'], n['threshold'], [0.]
                cl[k], cr[k] = grow(n['left_child']), grow(n['right_child'])
                cd[k] = (cl[k] if n['default_left'] else cr[k]) if n['missing_type'] == 'NaN' else None
            return k
        grow(i['tree_structure'])
        out.append(dict(children_left=np.array(cl), children_right=np.array(cr), features=np.array(ft), thresholds=np.array(th), values=np.array(v, dtype=float)))
        if None not in cd:
            out[-1]['children_default'] = np.array(cd)
    return out


def lightgbm(rng, kind, X, s, y, n, depth):
    """A fitted LightGBM model."""
    import lightgbm as L
    Z = X.copy()
    if rng.rand() < .5:
        Z[rng.rand(*Z.shape) < .3] = np.nan
    kw = dict(n_estimators=n, max_depth=depth, min_child_samples=[2, 5, len(X) // 3, len(X)][rng.randint(4)], metric='None', n_jobs=1, learning_rate=.3, random_state=1, verbose=-1)
    k = kind.split('.')[1]
    if kind.endswith('multi'):
        y = np.argsort(np.argsort(s)) * 3 // len(s)
    if k == 'LGBMRanker':
        model = L.LGBMRanker(**kw).fit(Z, np.argsort(np.argsort(s)) // 8, group=[len(X) - 7, 7])
    elif k.startswith('Booster'):
        kw['num_iterations'] = kw.pop('n_estimators')
        obj = 'multiclass' if kind.endswith('multi') else ['regression', 'binary', 'quantile'][rng.randint(3)]
        more = dict(num_class=3) if obj == 'multiclass' else {}
        model = L.train(dict(kw, objective=obj, **more), L.Dataset(Z, s if obj in ('regression', 'quantile') else y))
    else:
        if rng.rand() < .3 and k == 'LGBMRegressor':
            kw['objective'] = 'regression'
        model = getattr(L, k.split('-')[0])(**kw).fit(Z, s if k == 'LGBMRegressor' else y)
    b = model if k.startswith('Booster') else model.booster_
    return model, lgb_trees(b.dump_model()['tree_info'], X.shape[1]), lambda X: b.predict(X, raw_score=True)


# ---------------------------------------------------------------------------------------------------------- CatBoost

def cat_tree(rng, m, depth):
    """An oblivious tree as CatBoost writes it, and as a dictionary tree: split k decides bit k of the leaf (greater: 1)."""
    splits = [(int(rng.randint(m)), float(rng.randint(-5, 6)) / 4) for _ in range(depth)]
    values = [float(v) / 4 for v in rng.randint(-16, 17, size=2 ** depth)]
    weights = [float(v) for v in rng.randint(0, 5, size=2 ** depth)]
    own = dict(splits=[dict(float_feature_index=f, border=b, split_index=i, split_type='FloatFeature') for i, (f, b) in enumerate(splits)],
               leaf_values=values, leaf_weights=weights)
    cl, cr, ft, th, v = [], [], [], [], []

    def grow(k, leaf):
        i = len(cl)
        for s in (cl, cr, ft, th, v):
            s.append(None)
        if k < 0:
            cl[i], cr[i], ft[i], th[i], v[i] = -1, -1, -2, -2., [values[leaf]]
        else:
            ft[i], th[i], v[i] = splits[k][0], splits[k][1], [0.]
            cl[i] = grow(k - 1, leaf)
            cr[i] = grow(k - 1, leaf + 2 ** k)
        return i
    grow(depth - 1, 0)
    return own, dict(children_left=np.array(cl), children_right=np.array(cr), features=np.array(ft), thresholds=np.array(th), values=np.array(v))


def catboost(rng, m, n, depth):
    pairs = [cat_tree(rng, m, rng.randint(0, depth + 1)) for _ in range(n)]
    text = json.dumps(dict(oblivious_trees=[p[0] for p in pairs], model_info=dict(params=dict(tree_learner_options=dict(depth=depth))),
                           scale_and_bias=[1, [0]]))

    def save_model(name, format='cbm'):
        assert format == 'json'
        with open(name, 'w') as f:
            f.write(text)
    return new('catboost.core.CatBoostClassifier', save_model=save_model, get_cat_feature_indices=lambda: []), [p[1] for p in pairs]


# ------------------------------------------------------------------------------------------------------------- Spark

class Node:
    def __init__(self, t, k, stats, impurity):
        self.t, self.k, self.s, self.imp = t, k, stats, impurity

    def leaf(self):
        return self.t['children_left'][self.k] < 0

    def subtreeDepth(self):
        return 0 if self.leaf() else 1 + max(self.leftChild().subtreeDepth(), self.rightChild().subtreeDepth())

    def leftChild(self):
        return Node(self.t, self.t['children_left'][self.k], self.s, self.imp)

    def rightChild(self):
        return Node(self.t, self.t['children_right'][self.k], self.s, self.imp)

    def prediction(self):
        return float(self.t['values'][self.k, 0])

    def impurityStats(self):
        s = self.s[self.k]
        return types.SimpleNamespace(stats=lambda: list(s), count=lambda: float(sum(s)))

    def split(self):
        f, h = int(self.t['features'][self.k]), float(self.t['thresholds'][self.k])
        return types.SimpleNamespace(featureIndex=lambda: f, threshold=lambda: h, getClass=lambda: 'class org.apache.spark.ml.tree.ContinuousSplit')


def spark_tree(t, stats, impurity, kind):
    java = types.SimpleNamespace(rootNode=lambda: Node(t, 0, stats, impurity), getImpurity=lambda: impurity)
    return new('pyspark.ml.%s.DecisionTree%sModel' % (('regression', 'Regression') if kind == 'reg' else ('classification', 'Classification')), _java_obj=java)


def spark(rng, kind, m, n, depth):
    clf = 'Classification' in kind
    d = rng.randint(2, 4)
    trees, subs = [], []
    for _ in range(n):
        t = gen_tree(rng, m, depth, 1, lambda: [rng.randint(-8, 9) / 4.0])
        stats = rng.randint(0, 6, size=(len(t['features']), d)).astype(float)
        stats[:, 0] += 1
        trees.append((t, stats))
    sub = 'clf' if clf and not kind.startswith('GBT') else 'reg'
    imp = ['gini', 'entropy'][rng.randint(2)] if sub == 'clf' else 'variance'
    models = [spark_tree(t, s, imp, sub) for t, s in trees]
    where = 'pyspark.ml.classification.' if clf else 'pyspark.ml.regression.'
    java = types.SimpleNamespace(getImpurity=lambda: imp)
    w = [float(v) for v in (rng.randint(1, 5, size=n) / 4.0 if kind.startswith('GBT') else [1.0] * n)]
    if kind.startswith('DecisionTree'):
        model, trees, scale = models[0], trees[:1], [1.0]
    else:
        model = new(where + kind, trees=models, treeWeights=w, _java_obj=java)
        scale = w if kind.startswith('GBT') else [v / sum(w) for v in w]
    out = []
    for (t, s), z in zip(trees, scale):
        v = (s.T / s.sum(1)).T if sub == 'clf' else t['values']
        out.append(dict(t, values=v * z))
    return model, out


# ----------------------------------------------------------------------------------------- forests of scikit-learn trees

def wrapped(rng, kind, X, s, y, n, depth):
    import sklearn.ensemble as E, sklearn.tree as T
    seed = int(rng.randint(2 ** 31 - 1))
    if kind == 'ngboost':
        # parameter k of the distribution: init[k] - rate * sum of scaling * tree
        base, scal = [], []
        for _ in range(n):
            base.append([T.DecisionTreeRegressor(max_depth=depth, random_state=seed).fit(X, s * rng.randint(-2, 3)) for _ in range(2)])
            scal.append(float(rng.randint(1, 5)) / 2)
        model = new(['ngboost.api.NGBRegressor', 'ngboost.ngboost.NGBoost', 'ngboost.api.NGBClassifier'][rng.randint(3)], base_models=base, scalings=scal, learning_rate=.25,
                    init_params=np.array([float(rng.randint(-8, 9)) / 4, 1.0]))
        trees = [tree_of(b[0].tree_, -.25 * c) for b, c in zip(base, scal)]
        return model, trees, [float(model.init_params[0])], None
    own = None
    if kind == 'imblearn':
        f = E.RandomForestClassifier(n_estimators=n, max_depth=depth, random_state=seed).fit(X, y)
        path = 'imblearn.ensemble._forest.BalancedRandomForestClassifier'
        own = f.predict_proba
    else:
        f = getattr(E, kind.split('.')[1])(n_estimators=n, max_depth=depth, random_state=seed).fit(X, s)
        path = 'skopt.learning.forest.' + kind.split('.')[1]
        own = f.predict
    model = new(path, estimators_=f.estimators_, criterion=f.criterion, n_estimators=n)
    trees = [tree_of(e.tree_, 1.0 / n, kind == 'imblearn') for e in f.estimators_]
    return model, trees, [0.0] * trees[0]['values'].shape[1], own


LGB = ['lightgbm.LGBMRegressor', 'lightgbm.LGBMClassifier', 'lightgbm.LGBMClassifier-multi', 'lightgbm.LGBMRanker', 'lightgbm.Booster', 'lightgbm.Booster-multi']
SPARK = ['RandomForestClassificationModel', 'RandomForestRegressionModel', 'GBTClassificationModel', 'GBTRegressionModel', 'DecisionTreeClassificationModel', 'DecisionTreeRegressionModel']
KINDS = LGB + ['gpboost.Booster', 'catboost'] + SPARK + ['ngboost', 'imblearn', 'skopt.RandomForestRegressor', 'skopt.ExtraTreesRegressor']


def fitted(rng, kind, size=3, depth=3):
    """As models.fitted, and whether the explainer predicts."""
    import models
    X, s, y = models.dataset(rng)
    m = X.shape[1]
    n = int(rng.randint(1, size + 1))
    if kind == 'catboost' or kind in SPARK:
        X = rng.randint(-8, 9, size=X.shape) / 4.0
    if kind == 'catboost':
        model, trees = catboost(rng, m, n, depth)
        return model, X, s, trees, [0.0], None, '1/100000000', True
    if kind in SPARK:
        model, trees = spark(rng, kind, m, n, depth)
        return model, X, s, trees, [0.0] * trees[0]['values'].shape[1], None, '1/100000000', False
    if kind in LGB:
        k = 3 if kind.endswith('multi') else 1
        model, trees, own = lightgbm(rng, kind, X, s, y, n, depth)
        if k > 1:
            for i, t in enumerate(trees):
                v = np.zeros((len(t['values']), k))
                v[:, i % k] = t['values'][:, 0]
                t['values'] = v
        return model, X, s, trees, [0.0] * k, own, '1/100000000', True
    if kind == 'gpboost.Booster':
        X = rng.randint(-8, 9, size=X.shape) / 4.0
        trees = [gen_tree(rng, m, rng.randint(1, depth + 1), 1, lambda: [rng.randint(-16, 17) / 4.0]) for _ in range(n)]
        for t in trees:
            t['children_default'] = np.where(rng.rand(len(t['features'])) < .5, t['children_left'], t['children_right'])
        infos = [lgb_dump(rng, t, counts_of(t, X), i) for i, t in enumerate(trees)]
        model = new('gpboost.basic.Booster', params={'objective': ['regression', 'binary'][rng.randint(2)]}, dump_model=lambda: dict(tree_info=infos))
        return model, X, s, trees, [0.0], None, '1/100000000', True
    model, trees, off, own = wrapped(rng, kind, X, s, y, n, depth)
    return model, X, s, trees, off, own, '1/100000000', True
