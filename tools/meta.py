"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/meta.py"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []


def P_(pid, title, statement, over, qtext, why, files, mech, technique, note, state=(), observe=(), na=None):
    d = dict(id=pid, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state:
        d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe:
        d['anchors']['observe_at'] = list(observe)
    assert len(title) <= 80, pid
    P.append((d, technique, note, na))


exec(open(os.path.join(ROOT, 'tools', 'props.py')).read())

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for d, t, n, na in P:
        f.write(json.dumps(d) + '\n')
TRUST = ('Static: every path of the named entry points, loops by fixpoint, values by linear forms. Trusts clang -O0 IR as the '
         'meaning of the source, the contracts used for lower layers (each decided by its own check), and the stated '
         'assumptions on sizes and thread confinement.')
m = dict(version=1,
         setup_cmd='python3 -m compileall -q sa || true',
         checks=[dict(property=d['id'], quick_cmd='python3 -m sa.runner %s quick' % d['id'],
                      thorough_cmd='python3 -m sa.runner %s thorough' % d['id'],
                      technique=t, level='other', level_note=(n + ' ' + TRUST).strip())
                 for d, t, n, na in P if not na],
         not_applicable=[dict(property=d['id'], reason=na) for d, t, n, na in P if na],
         notes='Static analysis by abstract interpretation of the compiler IR of /repo (see DESIGN.md). '
               'known-findings.txt lists repaired and recorded defects.')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')


def design():
    import glob
    o = []
    for d, t, n, na in P:
        o.append('**%s — %s.** %s' % (d['id'], d['title'], '*Not applicable:* ' + na if na else
                 'Deciding method: %s. Anchors: %s. %s%s' % (
                     t, ', '.join('`%s`' % x['where'].replace('include/small/', '') for x in d['anchors']['mechanism']),
                     n + ' ' if n else '', 'Beyond tests: ' + d['why_tests_cant'])))
        o.append('')
    fx = ['* ' + l.split(': ', 1)[1].strip().replace('property=', '') for l in open(os.path.join(ROOT, 'known-findings.txt'))
          if l.startswith('fixed:')]
    sd = ['| seed | property | breaks | needs | caught by |', '|---|---|---|---|---|']
    for f in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
        j = json.load(open(f))
        sd.append('| %s | %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), j['property'],
                  j['what_it_breaks'].replace('|', '/'), j['needs'].replace('|', '/'), j.get('caught_by', j['property'])))
    s = open(os.path.join(ROOT, 'tools', 'design.in')).read()
    for k, v in (('TABLE', o), ('FIXES', fx), ('SEEDS', sd)):
        s = s.replace('@@%s@@' % k, '\n'.join(v))
    open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(s)


design()
print(len(m['checks']), 'checks', len(m['not_applicable']), 'n/a')
