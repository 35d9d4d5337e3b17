"""Writes properties.jsonl and MANIFEST.json from the tables below (run by hand after editing)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = []   # (id, title, statement, over, overtext, why, anchors, technique, level_note)
NA = []        # (id, title, statement, over, overtext, why, anchors, reason)
def A(files, state=(), mech=(), obs=()):
    return {'files': list(files), 'state': [dict(name=a, meaning=b, where=c) for a, b, c in state],
            'mechanism': [dict(name=a, where=b) for a, b in mech], 'observe_at': list(obs), 'hook_needed': None}
exec(open(os.path.join(HERE, 'meta', 'claimed.py')).read())
exec(open(os.path.join(HERE, 'meta', 'notapplicable.py')).read())
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in CLAIMED + NA:
        d = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['overtext']),
                 why_tests_cant=p['why'], anchors=p['anchors'])
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
M = dict(version=1, setup_cmd='python3 rules/setup.py', checks=[], not_applicable=[])
for p in CLAIMED:
    c = 'python3 rules/%s.py' % p['id'].lower()
    M['checks'].append(dict(property=p['id'], quick_cmd=c, thorough_cmd='VERIF_TIER=thorough ' + c, technique=p['technique'], level='other', level_note=p['note']))
for p in NA: M['not_applicable'].append(dict(property=p['id'], reason=p['reason']))
json.dump(M, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
