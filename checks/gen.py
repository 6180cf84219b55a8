"""writes properties.jsonl and MANIFEST.json from props.py"""
import json
import os
import subprocess
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NA
def _k():
    return json.load(open(os.path.join(V, 'known_findings.json')))


V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
keys = ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')
allp = sorted(list(PROPS.values()) + list(NA.values()), key=lambda p: p['id'])
for p in allp:
    assert len(p['title']) <= 80, p['title']
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in allp:
        f.write(json.dumps({k: p[k] for k in keys}) + '\n')
hooks = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'], capture_output=True, text=True).stdout.split('\n')
m = dict(version=1, setup_cmd='./setup.sh',
         hooks=dict(guard='cfg(oro_verif)', enable="RUSTFLAGS='--cfg oro_verif' (set by engine/sym/build.py for both the MIR dump and the native replay build)",
                    source_commits=[h.split(' ')[0] for h in hooks if h[41:].startswith('hook:')]),
         checks=[dict(property=p['id'], quick_cmd='./check %s --tier quick' % p['id'], thorough_cmd='./check %s --tier thorough' % p['id'],
                      technique='symbolic execution of the compiler\'s MIR of the real code with z3 (SMT) deciding every path, branch and assertion; counterexamples replayed natively',
                      level=p['level'], level_note=p['note']) for p in allp if p['id'] in PROPS],
         not_applicable=[dict(property=p['id'], reason=p['reason']) for p in allp if p['id'] in NA],
         notes='See DESIGN.md. Exit 2 = no verdict.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open(os.path.join(V, 'properties.jsonl')):
    jsonschema.validate(json.loads(l), s)
print(len(PROPS), 'claimed', len(NA), 'n/a')

# ---------------------------------------------------------------- DESIGN.md
sys.path.insert(0, os.path.join(V, 'engine', 'sym'))
from design import ORACLE
D = os.path.join(V, 'DESIGN.md')
t = open(D).read()
out = []
for p in allp:
    if p['id'] in NA:
        continue
    out.append('### %s: %s\n' % (p['id'], p['title']))
    out.append('*Decided:* ' + p['statement'] + '\n')
    out.append('*For:* ' + p['quantifier']['text'] + '.\n')
    out.append('*Oracle:* ' + ORACLE[p['id']] + '\n')
    out.append('*Bounds:* ' + p['bounds'] + '.\n')
    q = [h['name'] for h in p['harnesses'] if h['tier'] == 'both']
    th = [h['name'] for h in p['harnesses'] if h['tier'] != 'both']
    cost = ''
    try:
        e = json.load(open(os.path.join(V, 'evidence', p['id'] + '.json')))
        if e['tier'] == 'quick':
            cost = ' A quick run takes about %d s on 8 cores.' % (round(e['wall_s'], -1) or 10)
    except OSError:
        pass
    out.append('*Harnesses:* ' + ', '.join('`%s`' % h for h in q) + ('; thorough also ' + ', '.join('`%s`' % h for h in th) if th else '') + '.' + cost + '\n')
    out.append('*Why the tests can\'t:* ' + p['why_tests_cant'] + '\n')
na = ['- **%s %s**: %s' % (p['id'], p['title'], p['reason']) for p in allp if p['id'] in NA] or ['none']
seeds = ['| change | breaks | needs | caught by |', '|---|---|---|---|']
S = os.path.join(V, 'seeded')
for s in sorted(os.listdir(S)):
    mj = json.load(open(os.path.join(S, s, 'meta.json')))
    seeds.append('| %s | %s | %s | %s |' % (s, mj['what_it_breaks'], mj['needs'], mj.get('caught_by', mj['property'])))
kn = ['- %s (%s%s)' % (f['what'], f['property'], ', harness `%s`' % f['harness'].strip('^$') if 'harness' in f else '') for f in _k()['findings']]
fx = ['- ' + (f if isinstance(f, str) else json.dumps(f)).replace('fixed: property=', '') for f in _k()['fixed']]
for name, lines in (('properties', out), ('na', na), ('seeded', seeds), ('known', kn), ('fixed', fx)):
    a, b = '<!-- begin %s -->' % name, '<!-- end %s -->' % name
    i, j = t.index(a) + len(a), t.index(b)
    t = t[:i] + '\n' + '\n'.join(lines) + '\n' + t[j:]
open(D, 'w').write(t)
