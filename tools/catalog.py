#!/usr/bin/env python3
"""The one source of properties.jsonl and MANIFEST.json: run it after editing."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), check=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  state=state, observe=observe, check=check, na=na))


TECH = 'TLA+ specification; TLC model checking; its transitions replayed in jsish; recorded executions validated by TLC'
NOTE = ('TLC explores the specification exhaustively within small constants; every transition (a seeded sample in the quick '
        'tier) is performed in the built jsish, and seeded random executions far beyond those constants are recorded and '
        'accepted only if TLC finds them to be behaviours of the same specification. Trusts TLC, the rendering of '
        'operations as scripts, and that what is not generated behaves alike.')


def chk(technique=TECH, level='model_checking', note=NOTE):
    return dict(technique=technique, level=level, note=note)


exec(open(os.path.join(V, 'tools', 'props.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                 quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                 anchors=dict(files=p['files'],
                              state=[dict(name=a, meaning=b, where=c) for a, b, c in p['state']],
                              mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                              observe_at=list(p['observe']), hook_needed=None))
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(d) + '\n')
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=[], not_applicable=[],
         notes='No hooks in /repo: every check drives the built jsish (or libjsi) through its public interface. '
               'Each check builds /repo\'s working tree itself, under /verif/.work (ignored by git).')
for p in P:
    if p['check'] and os.path.exists(os.path.join(V, 'checks', p['id'] + '.py')):
        c = p['check']
        m['checks'].append(dict(property=p['id'], quick_cmd='python3 checks/%s.py quick' % p['id'],
                                thorough_cmd='python3 checks/%s.py thorough' % p['id'],
                                technique=c['technique'], level=c['level'], level_note=c['note']))
    else:
        m['not_applicable'].append(dict(property=p['id'], reason=p['na'] or 'No check has been built for it yet.'))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties,', len(m['checks']), 'checks')
