#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import props  # noqa: E402

checks = []
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for d, tech, note in props.ALL:
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d, ensure_ascii=False) + '\n')
        if os.path.exists(os.path.join(ROOT, 'checks', d['id'].lower() + '.py')):
            checks.append({'property': d['id'], 'quick_cmd': f'python3 run_check.py {d["id"]}',
                           'thorough_cmd': f'python3 run_check.py {d["id"]} --tier thorough',
                           'evidence_file': f'evidence/{d["id"]}.json',
                           'technique': tech, 'level': 'exploration', 'level_note': note})
        else:
            print('no check for', d['id'])
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': [],
     'notes': 'The code is pure Python and single threaded: compiler sanitizers and race detectors have nothing to '
              'observe; every property is decided by oracles over executions of the real code. No hooks in /repo: '
              'the detailed result log and the public functions are the observation points.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write('\n')
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for d, _, _ in props.ALL:
        jsonschema.validate(d, s)
    print('valid', len(checks), 'checks')
except ImportError:
    print('written,', len(checks), 'checks, not validated')


# DESIGN.md
import subprocess
import types
import design_text as T
# the checks need the packages of the repository's interpreter
code = ('import importlib, json, sys; sys.path.insert(0, %r); r = {}\n'
        'for i in sys.argv[1:]:\n'
        '    m = importlib.import_module("checks." + i.lower())\n'
        '    r[i] = {k: getattr(m, k) for k in ("RULE", "ASSUMPTIONS", "REQUIRE")}\n'
        'print(json.dumps(r))' % ROOT)
about = {k: types.SimpleNamespace(**v) for k, v in json.loads(subprocess.run(
    ['/opt/venv/bin/python', '-B', '-c', code] + [c['property'] for c in checks], check=True, capture_output=True,
    text=True, cwd=ROOT).stdout).items()}
out = [T.HEAD, '\n## Properties\n']
for d, tech, note in props.ALL:
    i = d['id']
    out.append(f"\n### {i} {d['title']}\n\n{d['statement']}\n")
    out.append(f"\n* Decided by: {tech}. {T.TEXT.get(i, '')}")
    c = about.get(i)
    if c is None:
        continue
    out.append(f"\n* Workload and counting: {c.RULE}")
    out.append('\n* Assumed: ' + '; '.join(c.ASSUMPTIONS) + '.')
    out.append('\n* Must be observed in a quick run: ' + ', '.join(f'{k} ({v})' for k, v in c.REQUIRE.items()) + '.')
    out.append(f"\n* Bounds and reach: {note}. Tests cannot: {d['why_tests_cant']}.\n")
kf = json.load(open(os.path.join(ROOT, 'known_findings.json')))
out.append(T.TAIL % {'findings': '\n'.join(f"* {f['property']} `{f['key']}`: {f['what']}" for f in kf['findings']),
                     'fixed': '\n'.join('* ' + f.removeprefix('fixed: ') for f in kf['fixed'])})
x = os.path.join(ROOT, 'tools', 'planted.json')
if os.path.exists(x):
    table = json.load(open(x))
    out.append(T.PLANTED)
    for n, e in table.items():
        by = ', '.join(c for c, r in e['by'].items() if r == 1) or 'none'
        not_by = ', '.join(c for c, r in e['by'].items() if r != 1)
        out.append(f"| `{n}` | {e['property']} | {e['needs']} | {by}{' (not by ' + not_by + ')' if not_by and by != 'none' else ''} |\n")
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(''.join(out))
