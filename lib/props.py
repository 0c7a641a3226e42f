"""Source of properties.jsonl and MANIFEST.json (python3 lib/props.py rewrites both)."""
import json
import os

CODEC = ['distribution/src/jadn/codec/codec.py', 'distribution/src/jadn/codec/__init__.py']
FMT = ['distribution/src/jadn/codec/format_serialize_json.py', 'distribution/src/jadn/codec/format_validate.py']
TRANS = ['distribution/src/jadn/transform/transform.py']
UTIL = ['distribution/src/jadn/utils.py']
CORE = ['distribution/src/jadn/core.py', 'distribution/src/jadn/data/jadn_v1.1_schema.jadn', 'distribution/src/jadn/data/jadn_v1.1_schema.json']

EXPL = 'bounded exhaustive exploration of the real code against an executable reference model'
P = []


def prop(pid, title, statement, over, quant, why, files, mech, note, technique=EXPL, state=(), observe=()):
    P.append(dict(id=pid, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  note=note, technique=technique, state=state, observe=observe))


D = 'distribution/src/jadn/'
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props_text.py'), encoding='utf8').read())


def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    have = {p['id'] for p in P if os.path.exists(os.path.join(root, 'checks', p['id'] + '.py'))}
    with open(os.path.join(root, 'properties.jsonl'), 'w', encoding='utf8') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'hook_needed': None}
            if p['state']:
                a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
            if p['observe']:
                a['observe_at'] = list(p['observe'])
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'],
                                'anchors': a}) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 -m compileall -q lib checks >/dev/null 2>&1; /opt/venv/bin/python -c "import jsonschema, lxml, frozendict"',
         'checks': [{'property': p['id'], 'quick_cmd': f'VERIF_TIER=quick ./run.sh {p["id"]}',
                     'thorough_cmd': f'VERIF_TIER=thorough ./run.sh {p["id"]}', 'evidence_file': f'evidence/{p["id"]}.json',
                     'technique': p['technique'], 'level': 'model_checking', 'level_note': p['note']}
                    for p in P if p['id'] in have],
         'not_applicable': [{'property': p['id'], 'reason': 'check not built yet'} for p in P if p['id'] not in have],
         'notes': 'No hooks in /repo: every check drives the public API of the code in /repo/distribution/src (pure Python, nothing to build).'}
    m['setup_cmd'] = '/opt/venv/bin/python -c "import jsonschema, lxml, frozendict"'
    with open(os.path.join(root, 'MANIFEST.json'), 'w', encoding='utf8') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(P), 'properties;', len(have), 'checks; missing', sorted({p['id'] for p in P} - have))


if __name__ == '__main__':
    main()
