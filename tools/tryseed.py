#!/usr/bin/env python3
"""Run each planted bug's check on a scratch copy with the bug; usage: tryseed.py [id ...]"""
import json, os, pathlib, shutil, subprocess, sys, time
V = pathlib.Path(__file__).resolve().parent.parent
for pid in sys.argv[1:] or sorted(p.name for p in (V / 'seeded').iterdir()):
    d = V / 'seeded' / pid
    prop = json.load(open(d / 'meta.json'))['property']
    root = f'/tmp/tryseed-{os.getpid()}'
    shutil.rmtree(root, ignore_errors=True)
    subprocess.run(f'mkdir {root} && git -C /repo archive HEAD | tar -x -C {root} && cd {root} && git init -q && git apply {d}/patch.diff', shell=True, check=True)
    t = time.time()
    r = subprocess.run([sys.executable, str(V / 'check.py'), prop], cwd=V, env=dict(os.environ, X1_REPO=root, X1_EVIDENCE='/dev/null'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    o = r.stdout.decode(errors='replace')
    v = [l for l in o.splitlines() if l.startswith('VIOLATION')]
    print('%-16s %s exit %d %4.0f s %s' % (pid, prop, r.returncode, time.time() - t, v[0][:150] if v else 'MISSED ' + o[-600:]), flush=True)
    shutil.rmtree(root)
