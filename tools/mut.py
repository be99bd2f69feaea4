"""Development aid: python tools/mut.py PID FILE 'old' 'new' [check args]
runs a check against a scratch copy of /repo with one replacement."""
import os
import shutil
import subprocess
import sys
import tempfile

pid, f, old, new = sys.argv[1:5]
d = tempfile.mkdtemp(prefix='mut')
try:
    shutil.copytree('/repo/taupy', d + '/taupy',
                    ignore=shutil.ignore_patterns('tests', '__pycache__'))
    p = d + '/taupy/' + f
    s = open(p).read()
    assert s.count(old) >= 1, 'not found'
    open(p, 'w').write(s.replace(old, new, 1))
    V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    r = subprocess.run(['/opt/venv/bin/python', V + '/check.py', pid,
                        '--no-evidence'] + sys.argv[5:],
                       env=dict(os.environ, TAUPY_REPO=d),
                       capture_output=True, text=True)
    print('\n'.join((r.stdout + r.stderr).strip().split('\n')[-4:])[-1200:])
    print('exit', r.returncode)
finally:
    shutil.rmtree(d)
