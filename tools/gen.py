#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import catalog
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(H + '/properties.jsonl', 'w') as f:
    for p in catalog.CATALOG + catalog.NOT_APPLICABLE:
        a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']])
        if p['observe']: a['observe_at'] = p['observe']
        if p['state']: a['state'] = p['state']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'], anchors=a), ensure_ascii=False) + '\n')
json.dump(dict(version=1, setup_cmd='python3 -m compileall -q vp',
    checks=[dict(property=p['id'], quick_cmd='python3 vp/run.py %s quick' % p['id'], thorough_cmd='python3 vp/run.py %s thorough' % p['id'],
                 technique=p['technique'], level=p['level'], level_note=p['note']) for p in catalog.CATALOG],
    not_applicable=[dict(property=p['id'], reason=p['na']) for p in catalog.NOT_APPLICABLE]), open(H + '/MANIFEST.json', 'w'), indent=1)
try:
    import jsonschema
    jsonschema.validate(json.load(open(H + '/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
    for l in open(H + '/properties.jsonl'): jsonschema.validate(json.loads(l), json.load(open('/root/.vp/PROPERTIES.schema.json')))
    print('valid')
except ImportError: pass
