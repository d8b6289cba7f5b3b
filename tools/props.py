"""The properties, and the text of MANIFEST.json. `python3 tools/props.py` rewrites properties.jsonl and MANIFEST.json."""
import json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PA, NOPA, CACHE, TREE, BASE, PYA = ('acv_explainers/cyext_acv/cyext_acv.pyx', 'acv_explainers/cyext_acv/cyext_acv_nopa.pyx',
                                    'acv_explainers/cyext_acv/cyext_acv_cache.pyx', 'acv_explainers/acv_tree.py',
                                    'acv_explainers/base_tree.py', 'acv_explainers/py_acv.py')
CEXT, UTILS, EXP, SDP, AGN, CR, UCR = ('acv_explainers/cext_acv/acv_tree.h', 'acv_explainers/utils.py', 'acv_explainers/utils_exp.py',
                                       'acv_explainers/utils_sdp.py', 'acv_explainers/acv_agnosticX.py',
                                       'acv_explainers/counterfactual_rules.py', 'acv_explainers/utils_cr.py')

P = []


def prop(id, title, statement, over, text, why, files, mech, note, technique='TLA+ specification; recorded API calls judged by TLC', na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]), note=note, technique=technique, na=na))


exec(open(os.path.join(VERIF, 'tools', 'table.py')).read())


def main():
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
    m = dict(version=1, setup_cmd='python3 run.py setup', checks=[], not_applicable=[])
    for p in P:
        if p['na']:
            m['not_applicable'].append(dict(property=p['id'], reason=p['na']))
        else:
            m['checks'].append(dict(property=p['id'], quick_cmd='python3 run.py ' + p['id'],
                                    thorough_cmd='VERIF_TIER=thorough python3 run.py ' + p['id'],
                                    technique=p['technique'], level='model_checking', level_note=p['note']))
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    import jsonschema
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for l in open(os.path.join(VERIF, 'properties.jsonl')):
        jsonschema.validate(json.loads(l), s)
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    for p in P:
        assert len(p['title']) <= 80, p['title']
        n = p['statement'].count('. ') + 1
        if n > 3:
            print('more than three sentences?', p['id'], n)
    print(len(P), 'properties')


if __name__ == '__main__':
    main()
