"""Run the check of its property on every planted bug and note what happened.

python3 tools/run_seeds.py [id ...]   works on a scratch copy of /repo, which it removes;
the table goes to DESIGN.md between the two marker lines (all ids only).
"""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')


def run(i):
    with open(os.path.join(SEEDED, i, 'meta.json')) as f:
        meta = json.load(f)
    d = tempfile.mkdtemp(prefix='seedrun_')
    try:
        r = os.path.join(d, 'repo')
        shutil.copytree('/repo', r, symlinks=True)
        patch = os.path.join(SEEDED, i, 'patch.diff')
        subprocess.run(['git', '-C', r, 'apply', patch], check=True)
        p = subprocess.run([os.path.join(HERE, 'check'), meta['property']],
                           env=dict(os.environ, FCA_REPO=r,
                                    VERIF_EVIDENCE=os.path.join(d, 'ev')),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        subs = re.findall(r'^%s/([^:]*): ' % meta['property'], p.stdout, re.M)
        return i, meta, p.returncode, subs
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main(ids):
    todo = ids or sorted(os.listdir(SEEDED))
    rows = []
    with concurrent.futures.ThreadPoolExecutor(3) as pool:
        for i, meta, rc, subs in pool.map(run, todo):
            caught = rc == 1 and subs
            print(i, 'caught by ' + ', '.join(subs) if caught else 'MISSED rc=%d' % rc,
                  flush=True)
            rows.append('| %s | %s | %s | %s |' % (
                i, meta['property'], meta['needs'].replace('|', '/').replace('\n', ' '),
                ', '.join(subs) if caught else '**missed**'))
    if ids:
        return
    path = os.path.join(HERE, 'DESIGN.md')
    with open(path) as f:
        text = f.read()
    a, b = '<!-- seeds -->\n', '<!-- /seeds -->'
    head, rest = text.split(a)
    tail = rest.split(b)[1]
    table = '| planted bug | property | needs | caught by subcheck |\n|---|---|---|---|\n'
    with open(path, 'w') as f:
        f.write(head + a + table + '\n'.join(rows) + '\n' + b + tail)


main(sys.argv[1:])
