#!/usr/bin/env python3
"""Run the check of its property (or the checks named) against every planted bug, on a copy of the repository.

planted.py [--checks C01,C02|all] [bug ...]   writes tools/planted.json
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
OUT = os.path.join(HERE, 'planted.json')
args = sys.argv[1:]
checks = None
if args and args[0] == '--checks':
    checks = args[1].split(',')
    args = args[2:]
    if checks == ['all']:
        checks = [json.loads(x)['id'] for x in open(os.path.join(ROOT, 'properties.jsonl'))]
table = json.load(open(OUT)) if os.path.exists(OUT) else {}
names = args or sorted(os.listdir(os.path.join(ROOT, 'seeded')))
for n in names:
    d = os.path.join(ROOT, 'seeded', n)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    work = tempfile.mkdtemp(prefix='planted_')
    try:
        repo = os.path.join(work, 'repo')
        subprocess.run(['cp', '-a', '/repo', repo], check=True)
        subprocess.run(['git', 'apply', os.path.join(d, 'patch.diff')], cwd=repo, check=True)
        ver = os.path.join(work, 'verif')
        shutil.copytree(ROOT, ver, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence'))
        e = table.setdefault(n, {'by': {}})
        e.update(property=meta['property'], needs=meta['needs'])
        for c in checks or [meta['property']]:
            r = subprocess.run([sys.executable, os.path.join(ver, 'run_check.py'), c],
                               env=dict(os.environ, VERIF_REPO=repo, VERIF_SEED='1'), capture_output=True, text=True)
            e['by'][c] = r.returncode
            print(n, c, r.returncode, flush=True)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    with open(OUT, 'w') as f:
        json.dump({k: table[k] for k in sorted(table)}, f, indent=1)
        f.write('\n')
