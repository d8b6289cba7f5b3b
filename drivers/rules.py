"""Global rules of ACXplainer."""
from fractions import Fraction
from common import *
from acv_explainers import ACXplainer


def dec(x):
    """The decimal number a level stands for."""
    f = Fraction(float(x)).limit_denominator(1000)
    return '%d/%d' % (f.numerator, f.denominator)


def gen_rules(rng, data, m, k):
    """Boxes around the data, free outside of their columns; some rules are given twice."""
    R, S = [], []
    for _ in range(k):
        if R and rng.rand() < .25:
            i = rng.randint(len(R))
            R.append(R[i].copy())
            S.append(list(rng.permutation(S[i])))
            continue
        s = list(rng.permutation(m)[:rng.randint(1, m + 1)])
        r = np.array([[-1e10, 1e10]] * m)
        for j in s:
            u, v = sorted(data[rng.randint(len(data), size=2), j])
            if rng.rand() < .7 and u < v or rng.rand() < .2:
                r[j] = [(-1e10, v), (u, 1e10), (u, v), (v, v)][rng.randint(4)]
            else:
                r[j] = [(-1e10, v), (u, 1e10)][rng.randint(2)]
        R.append(r)
        S.append(s)
    return np.array(R), [[int(j) for j in s] for s in S]


def gen_data(rng, clf):
    m = rng.randint(2, 5)
    data = gen_rows(rng, rng.randint(4, 25), m, grid=(-1, 0, 1))
    rescale(rng, [], data)
    y = rng.randint(0, 2, size=len(data)).astype(float) if clf else rng.randint(-8, 9, size=len(data)) / 4.0
    return m, data, y


def enc_none(v, enc, none):
    return [none if a is None else enc(a) for a in v]


def enc_pred(r):
    y, rule, S = r
    return dict(y=enc_none(y, rat, 'none'), rule=enc_none(rule, boxes, []), S=enc_none(S, one, []))


def enc_metrics(a, clf):
    out = dict(rules=boxes(a.rules), S=[one(s) for s in a.rules_s_star], coverage=rats(a.rules_coverage), quality=rats(a.rules_acc),
               var=rats(a.rules_var), output=rats(a.rules_output))
    if clf:
        out['proba'] = rats(a.rules_output_proba)
    return out


def cut(rng, data, n):
    """Rows with the values of the data, mixed, and others."""
    Z = np.stack([data[rng.randint(len(data), size=n), j] for j in range(data.shape[1])], axis=1)
    for i in range(n):
        if rng.rand() < .3:
            j = rng.randint(data.shape[1])
            u = np.unique(data[:, j])
            Z[i, j] = [u[0] - abs(u[0]) - 1, u[-1] + abs(u[-1]) + 1, (u[0] + u[-1]) / 2][rng.randint(3)]
    return Z


def predictions(rng, rec, case, a, clf, kw, data):
    for r in range(3):
        Z = cut(rng, data, 8)
        cov = [0.0, .1, .25, .5][rng.randint(4)]
        if clf:
            level = [0.5, .6, .75, .8, 1.0][rng.randint(5)]
        else:
            level = [.1234, .77, 1.3, 2.9, 1000][rng.randint(5)]
        p = dict(kw, X=rows(Z), cov=dec(cov), level=dec(level))
        g = rec.group(case, 'gpredict', proba=0, **p)
        if clf:
            rec.add(g, 'predict_global_rules', lambda: a.predict_global_rules(Z, cov, level), enc_pred)
            g = rec.group(case, 'gpredict', proba=1, **p)
            rec.add(g, 'predict_proba_global_rules', lambda: a.predict_proba_global_rules(Z, cov, level), enc_pred)
        else:
            rec.add(g, 'predict_global_rules', lambda: a.predict_global_rules(Z, cov, min_reg=level), enc_pred)


def grules(rng, rec, idx, tier):
    clf = bool(idx % 2)
    case = dict(id='grules-%d' % idx, calls=[])
    a = ACXplainer(classifier=clf, n_estimators=1)
    for again in range(2):
        m, data, y = gen_data(rng, clf)
        R, S = gen_rules(rng, data, m, rng.randint(1, 8))
        kw = dict(clf=int(clf), rules=boxes(R), S=[one(s) for s in S], data=rows(data), yd=rats(y))
        g = rec.group(case, 'gmetrics', **kw)

        def fit():
            a.fit_global_rules(data, y, R, S)
            return a
        rec.add(g, 'fit_global_rules', fit, lambda a: enc_metrics(a, clf), inputs=(data, y, R, S))
        predictions(rng, rec, case, a, clf, kw, data)
    return case


if __name__ == '__main__':
    main(dict(grules=grules))
