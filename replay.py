#!/usr/bin/env python3
"""Re-execute one reported case: replay.py out/PXX-N.json"""
import json, os, subprocess, sys, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS
import run_check as rc
v = json.load(open(sys.argv[1]))
os.makedirs(os.path.join(HERE, '.work'), exist_ok=True)
wd = tempfile.mkdtemp(prefix='replay-', dir=os.path.join(HERE, '.work'))
try:
    for j in CHECKS[v['property']]['jobs']:
        if (j.get('src') or j.get('script')) == v['explorer'] and j.get('flags', []) == v['flags']:
            b, e = rc.build(j, wd)
            if e:
                print(e); sys.exit(2)
            env = dict(os.environ, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
            env.update({k: rc.fill(x) for k, x in j.get('env', {}).items()})
            sys.exit(subprocess.run([b, '--family', v['family'], '--idx', str(v['index']), '--tmp', wd] + j.get('args', []), env=env, cwd=wd).returncode)
    print('no such explorer'); sys.exit(2)
finally:
    shutil.rmtree(wd, ignore_errors=True)
