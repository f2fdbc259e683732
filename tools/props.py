"""The one table behind properties.jsonl, checks.json and MANIFEST.json: python3 tools/props.py rewrites them."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, driver, technique, note, **kw):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, driver=driver, technique=technique, note=note, **kw))


exec(open(os.path.join(VERIF, 'tools', 'props_table.py')).read())


def main():
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'],
                            'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                            'observe_at': p['observe']},
            }) + '\n')
    checks = {}
    man = {'version': 1, 'setup_cmd': 'python3 tools/vbuild.py', 'checks': [], 'not_applicable': NOT_APPLICABLE}
    for p in P:
        if not p['driver']:
            continue
        if not os.path.exists(os.path.join(VERIF, 'harness', p['driver'] + '.cpp')):
            continue
        checks[p['id']] = {'driver': p['driver'], 'build': p.get('build', 'asan'),
                           'min_distinct': p.get('min_distinct', 200), 'assumptions': p.get('assumptions', [])}
        man['checks'].append({
            'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'],
            'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
            'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']})
    json.dump(checks, open(os.path.join(VERIF, 'checks.json'), 'w'), indent=1)
    json.dump(man, open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)
    import subprocess
    for x in P:
        assert len(x['title']) <= 80, x['title']


main()
