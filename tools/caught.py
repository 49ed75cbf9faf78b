"""Runs every planted bug of /verif/seeded against its property's quick check and
rewrites the table of section 9 of DESIGN.md.  (Not used by any check.)

usage: python3 tools/caught.py [ID...]
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STORE = os.path.join(HERE, 'replays', 'caught.json')


def run(name):
    meta = json.load(open(os.path.join(HERE, 'seeded', name, 'meta.json')))
    prop = meta['property']
    tmp = tempfile.mkdtemp(prefix='caught-', dir='/tmp')
    tree = os.path.join(tmp, 'repo')
    try:
        shutil.copytree('/repo', tree, symlinks=True)
        subprocess.run(['git', '-C', tree, 'checkout', '-q', '--', '.'], check=True)
        subprocess.run(['git', '-C', tree, 'apply', '--whitespace=nowarn', os.path.join(HERE, 'seeded', name, 'patch.diff')], check=True)
        env = dict(os.environ, VERIF_SEED='1', VERIF_REPO=tree, VERIF_EVIDENCE=os.path.join(tmp, 'evidence'))
        t = time.time()
        p = subprocess.run([os.path.join(HERE, 'check'), 'run', prop], env=env, cwd=HERE, capture_output=True, text=True)
        secs = time.time() - t
        kind = re.search(r'^run \d+ \(seed \d+\): ([\w-]+)', p.stdout, re.M)
        return {'property': prop, 'rc': p.returncode, 'seconds': round(secs), 'kind': kind.group(1) if kind else '',
                'violation': 'VIOLATION property={} '.format(prop) in p.stdout, 'needs': meta['needs']}
    finally:
        shutil.rmtree(tmp)


def main():
    names = sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, 'seeded')))
    table = json.load(open(STORE)) if os.path.exists(STORE) else {}
    for n in names:
        table[n] = run(n)
        print(n, {k: table[n][k] for k in ('property', 'rc', 'seconds', 'kind')}, flush=True)
        json.dump(table, open(STORE, 'w'), indent=1, sort_keys=True)
    table = {n: r for (n, r) in table.items() if os.path.isdir(os.path.join(HERE, 'seeded', n))}
    rows = ['| planted bug | check | caught as | s |', '|---|---|---|---|']
    for (n, r) in sorted(table.items(), key=lambda x: (x[1]['property'], x[0])):
        rows.append('| {} | {} | {} | {} |'.format(n, r['property'], r['kind'] if r['rc'] == 1 and r['violation'] else 'NOT CAUGHT (rc {})'.format(r['rc']), r['seconds']))
    path = os.path.join(HERE, 'DESIGN.md')
    text = open(path).read()
    head = '## 9. Which checks catch which planted bugs'
    (a, b) = text.split(head)
    b = b[b.index('\n## '):]
    caught = sum(1 for r in table.values() if r['rc'] == 1 and r['violation'])
    intro = ('\n\nWritten by `tools/caught.py`: each planted bug against the quick check of its property\n'
             '(seed 1, 8 cores; seconds until the verdict, replay and minimisation included).\n'
             '{} of {} are caught.\n\n'.format(caught, len(table)))
    open(path, 'w').write(a + head + intro + '\n'.join(rows) + '\n' + b)


if __name__ == '__main__':
    main()
