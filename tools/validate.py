import json, jsonschema, sys, glob, os
V = '/verif'
L = lambda p: json.load(open(p))
s = L('/root/.vp/PROPERTIES.schema.json')
ids = []
for l in open(V + '/properties.jsonl'):
    d = json.loads(l); jsonschema.validate(d, s); ids.append(d['id'])
    import re
    n = len(re.findall(r'[.](?:\s|$)', d['statement']))
    if n > 3: print(d['id'], 'sentences', n)
if os.path.exists(V + '/MANIFEST.json'):
    m = L(V + '/MANIFEST.json'); jsonschema.validate(m, L('/root/.vp/MANIFEST.schema.json'))
    cl = [c['property'] for c in m['checks']] + [c['property'] for c in m['not_applicable']]
    print('unlisted', sorted(set(ids) - set(cl)), 'unknown', sorted(set(cl) - set(ids)))
e = L('/root/.vp/EVIDENCE.schema.json')
for f in glob.glob(V + '/evidence/*.json'):
    jsonschema.validate(L(f), e)
print(len(ids), 'ok')
