"""Writes properties.jsonl and MANIFEST.json: python3 tools/gen.py"""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, os.path.join(V, 'tools'))
import props    # noqa
import checks   # noqa

NA = getattr(checks, 'NOT_APPLICABLE', {})

for p in props.P:
    assert len(p['title']) <= 80, (p['id'], len(p['title']))
    for f in p['anchors']['files']:
        assert os.path.exists(os.path.join('/repo', f)), f
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in props.P:
        f.write(json.dumps(p) + '\n')

man = {
    'version': 1,
    'setup_cmd': 'python3-vt run.py --selftest',
    'checks': [],
    'not_applicable': [],
    'notes': 'No hooks: the checks read the sources of /repo as they are. '
             'Every check runs with up to 8 processes (VERIF_WORKERS).',
}
for p in props.P:
    c = checks.CHECKS.get(p['id'])
    if c is None:
        man['not_applicable'].append({
            'property': p['id'],
            'reason': NA.get(p['id'], 'no check yet')})
        continue
    man['checks'].append({
        'property': p['id'],
        'quick_cmd': 'python3-vt run.py %s quick' % p['id'],
        'thorough_cmd': 'python3-vt run.py %s thorough' % p['id'],
        'technique': 'symbolic execution of the real Python sources, '
                     'assertions decided by z3 (bit-vectors), '
                     'counterexamples replayed under Jython',
        'level': 'model_checking',
        'level_note': 'Holds for every value within the stated bounds: '
        + c['bounds']['quick'] + ' (thorough: ' + c['bounds']['thorough']
        + '). Outside: ' + c['outside'] + '. Trusted: the translation of '
        'Python 2 semantics and of the library models in engine/, checked on '
        'every run by replaying one solver model per sampled path on the '
        'real code.',
    })
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(man['checks']), 'checks,', len(man['not_applicable']), 'without')

D = os.path.join(V, 'DESIGN.md')
if os.path.exists(D):
    def entry(p):
        c = checks.CHECKS.get(p['id'])
        r = ['### %s %s' % (p['id'], p['title']), '', props.HOW[p['id']]]
        if c is None:
            return r + ['', 'Not applicable: ' + NA.get(p['id'], '')]
        h = sorted(set(j[0] + '.' + j[1] for j in c['jobs']('thorough')))
        r += ['', '- Harness: ' + ', '.join(h),
              '- Quick: ' + c['bounds']['quick'],
              '- Thorough: ' + c['bounds']['thorough'],
              '- Outside: ' + c['outside'],
              '- Tests: ' + p['why_tests_cant']]
        e = os.path.join(V, 'evidence', p['id'] + '.json')
        if os.path.exists(e):
            with open(e) as f:
                e = json.load(f)
            k = e['coverage']
            r.append('- Cost of the %s run: %d jobs, %d paths, %d queries '
                     '(%.0f s in the solver), %.0f s on 8 cores' % (
                         e['tier'], len(k['jobs']), k['states'],
                         k['smt_queries'], k['solver_seconds'],
                         e['wall_s']))
        return r
    with open(D) as f:
        d = f.read()
    a, rest = d.split('<!-- properties -->\n', 1)
    b = rest.split('<!-- end of properties -->\n', 1)[1]
    text = '\n\n'.join('\n'.join(entry(p)) for p in props.P)
    d = (a + '<!-- properties -->\n' + text +
         '\n<!-- end of properties -->\n' + b)

    def fill(d, name, text):
        a, rest = d.split('<!-- %s -->\n' % name, 1)
        b = rest.split('<!-- end of %s -->\n' % name, 1)[1]
        return ('%s<!-- %s -->\n%s<!-- end of %s -->\n%s'
                % (a, name, text, name, b))

    with open(os.path.join(V, 'known_findings.json')) as f:
        known = json.load(f)
    rows = '| Commit | Property | What failed |\n|---|---|---|\n'
    for k in known:
        if k['status'] == 'fixed':
            c, w = k['what'].split(' ', 2)[2].split(' ', 1)
            rows += '| %s | %s | %s |\n' % (c, k['property'], w)
    d = fill(d, 'fixes', rows)
    rows = ('| Change | Property | What it breaks | Needs | Reported by |\n'
            '|---|---|---|---|---|\n')
    R = os.path.join(V, 'tools', 'planted.json')
    res = {}
    if os.path.exists(R):
        with open(R) as f:
            res = json.load(f)
    S = os.path.join(V, 'seeded')
    for i in sorted(os.listdir(S)):
        with open(os.path.join(S, i, 'meta.json')) as f:
            m = json.load(f)
        rows += '| %s | %s | %s | %s | %s |\n' % (
            i, m['property'], m['what_it_breaks'], m['needs'],
            ', '.join(res.get(i, [])) or 'none')
    d = fill(d, 'planted', rows)
    with open(D, 'w') as f:
        f.write(d)
