"""Run checks against the planted changes in scratch copies: python3 tools/seeds.py [--all] [ID ...]."""
import concurrent.futures
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(sid, every):
    d = f'{V}/seeded/{sid}'
    w = tempfile.mkdtemp(prefix='seed-')
    try:
        shutil.copytree('/repo/weac', w + '/weac')
        r = subprocess.run(['git', 'apply', '--directory=' + os.path.basename(w), d + '/patch.diff'], cwd=os.path.dirname(w), capture_output=True, text=True)
        if r.returncode:
            return sid, r.stderr
        pid = json.load(open(d + '/meta.json'))['property']
        ids = sorted(os.path.basename(f)[:-3] for f in glob.glob(V + '/checks/C*.py')) if every else [pid]
        out = []
        for i in ids:
            r = subprocess.run(['python3-vt', f'{V}/checks/{i}.py'], env=dict(os.environ, WEAC_REPO=w, VERIF_JOBS='4'), capture_output=True, text=True)
            if r.returncode:
                out.append(f'{i}:{r.returncode}' + ('' if 'VIOLATION' in r.stdout else '(no answer)'))
        return sid, f"{pid} {'CAUGHT' if pid + ':1' in out else 'MISSED'}  by {' '.join(out)}"
    finally:
        shutil.rmtree(w)


if __name__ == '__main__':
    a = sys.argv[1:]
    every = '--all' in a
    ids = [x for x in a if x != '--all'] or sorted(os.path.basename(os.path.dirname(f)) for f in glob.glob(V + '/seeded/*/meta.json'))
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        for sid, r in ex.map(lambda s: run(s, every), ids):
            print(f'{sid:32s} {r}', flush=True)
