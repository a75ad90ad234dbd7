"""Runs every property twice with different hash seeds and numbers of workers; the event logs of
all runs must be the same."""
import glob
import json
import os
import re
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
props = sys.argv[1:] or sorted(
    re.search(r'(c\d\d)\.py', f).group(1).upper() for f in glob.glob(HERE + '/sim/props/c*.py'))
bad = 0
for pid in props:
    res = []
    for hs, w in (('0', '8'), ('12345', '3')):
        fd, out = tempfile.mkstemp()
        os.close(fd)
        r = subprocess.run([PY, os.path.join(HERE, 'check.py'), pid, '--runs', '160', '--workers', w,
                            '--hashseed', hs, '--digests', out], cwd=HERE, capture_output=True)
        try:
            res.append(json.load(open(out)))
        except ValueError:
            sys.stdout.write(r.stderr.decode()[-2000:])
            res.append({})
        os.unlink(out)
    common = set(res[0]) & set(res[1])
    diff = sorted(k for k in common if res[0][k] != res[1][k])
    bad += len(diff) or not common
    print(pid, '%d runs compared, %d differ' % (len(common), len(diff)), diff[:5], flush=True)
sys.exit(1 if bad else 0)
