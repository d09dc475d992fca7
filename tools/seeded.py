"""seeded.py [ID...]: apply each planted change to a scratch copy of /repo and run its property's quick check there.

Not a check: a development tool.  ``--all`` runs every check on each change.
"""

import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')


def one(name, everything=False):
    folder = os.path.join(SEEDED, name)
    prop = json.load(open(os.path.join(folder, 'meta.json')))['property']
    copy = tempfile.mkdtemp(prefix='seeded-')
    try:
        shutil.copytree('/repo/src', os.path.join(copy, 'src'), ignore=shutil.ignore_patterns('__pycache__'))
        r = subprocess.run(['git', 'apply', os.path.join(folder, 'patch.diff')], cwd=copy, capture_output=True, text=True)
        if r.returncode:
            return name, 'DOES NOT APPLY: ' + r.stderr
        caught = list()
        for p in (['P{:02d}'.format(i) for i in range(1, 22)] if everything else [prop]):
            env = dict(os.environ, FPMON_REPO_SRC=os.path.join(copy, 'src'), FPMON_OUT=copy)
            r = subprocess.run([sys.executable, os.path.join(HERE, 'fpmon', 'run.py'), p, 'quick'], cwd=HERE, env=env, capture_output=True, text=True)
            if r.returncode == 1 and 'VIOLATION property=' + p in r.stdout:
                caught.append(p)
            elif r.returncode:
                caught.append(p + '?')
        return name, ('caught by ' + ' '.join(caught)) if caught else 'MISSED'
    finally:
        shutil.rmtree(copy, ignore_errors=True)


if __name__ == '__main__':
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    with ThreadPoolExecutor(4) as pool:
        for name, what in pool.map(lambda n: one(n, '--all' in sys.argv), args or sorted(os.listdir(SEEDED))):
            print(name, what, flush=True)
