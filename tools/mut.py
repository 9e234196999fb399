"""Apply textual edits to a scratch copy of /repo/weac and run checks against it (development aid).

usage: mut.py 'file|||old|||new[@@@file|||old|||new]' C05 C06 ..."""
import os
import shutil
import subprocess
import sys
import tempfile
d = tempfile.mkdtemp(prefix='mut')
try:
    shutil.copytree('/repo/weac', d + '/weac')
    for e in sys.argv[1].split('@@@'):
        f, o, n = e.split('|||')
        p = os.path.join(d, 'weac', f.strip())
        s = open(p).read()
        if o not in s:
            sys.exit('not found: ' + o)
        open(p, 'w').write(s.replace(o, n, 1))
    for c in sys.argv[2:]:
        r = subprocess.run(['python3-vt', f'/verif/checks/{c}.py'], env=dict(os.environ, WEAC_REPO=d), capture_output=True, text=True)
        out = [l[:260] for l in (r.stdout + r.stderr).splitlines()]
        print(f'== {c} exit {r.returncode}')
        print('\n'.join(out[:1] + out[1:][-4:]))
finally:
    shutil.rmtree(d)
