#!/usr/bin/env python3
"""Make /verif/seeded/<id> out of tools/plants.py and confirm each one in a scratch copy of /repo.

usage: plant.py [id ...]      (without arguments: every one that has no directory yet)
"""
import json, os, shutil, subprocess, sys, tempfile, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V / 'tools'))
import plants

def sh(cmd, cwd=None, timeout=900):
    r = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode(errors='replace')

def build(root, what='all x1test'):
    if not os.path.exists(root + '/_build/build.ninja'):
        c, o = sh(f'CC=gcc CXX=g++ cmake -S {root} -B {root}/_build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_POLICY_VERSION_MINIMUM=3.5 -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DFETCHCONTENT_SOURCE_DIR_GOOGLETEST=/usr/src/googletest -DCppcheck=NOTFOUND-disabled')
        if c: return o
    c, o = sh(f'ninja -C {root}/_build {what} && mkdir -p {root}/_build/library-tools && make -C {root}/_build/library-tools -f {root}/library/Makefile VPATH={root}/library objfile')
    return o if c else None

def main():
    todo = sys.argv[1:] or [p for p in plants.P if not (V / 'seeded' / p).exists()]
    base = '/tmp/plant'
    shutil.rmtree('/tmp/plant', ignore_errors=True)
    os.makedirs('/tmp/plant')
    root = base + '/repo'
    sh(f'cp -a /repo {root} && rm -rf {root}/_build && git -C {root} checkout -q -- .')
    o = build(root)
    assert o is None, o
    stable = set(json.load(open('/opt/vp/BASELINE.json')).get('passed') or json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for pid in todo:
        p = plants.P[pid]
        d = V / 'seeded' / pid
        shutil.rmtree(d, ignore_errors=True)
        d.mkdir(parents=True)
        for n, t in p.get('files', {}).items():
            (d / n).write_text(t)
        (d / 'demo.sh').write_text(plants.PRELUDE + p['demo'])
        os.chmod(d / 'demo.sh', 0o755)
        (d / 'meta.json').write_text(json.dumps({'property': p['property'], 'needs': p['needs'], 'what_it_breaks': p['breaks']}, indent=1) + '\n')
        # Clean.
        dd = tempfile.mkdtemp(dir=base)
        sh(f'cp {d}/* {dd}/')
        c0, o0 = sh(f'bash {dd}/demo.sh', cwd=root)
        for f, old, new in p['edits']:
            s = open(f'{root}/{f}').read()
            assert s.count(old) == 1, (pid, f, s.count(old), old)
            open(f'{root}/{f}', 'w').write(s.replace(old, new))
        c, diff = sh('git diff', cwd=root)
        (d / 'patch.diff').write_text(diff)
        o = build(root)
        bad = []
        if o: bad.append('does not build: ' + o[-2000:])
        else:
            c1, o1 = sh(f'bash {dd}/demo.sh', cwd=root)
            sh(f'rm -f {root}/_build/tests/*.a60 {root}/_build/tests/*.x1 {root}/_build/tests/*.trace')
            c2, o2 = sh(f'ctest --test-dir {root}/_build/tests -j8 --timeout 300')
            if c0: bad.append('demo fails on the clean tree: ' + o0[-800:])
            if not c1: bad.append('demo passes with the change')
            if c2: bad.append('tests fail: ' + '\n'.join(l for l in o2.splitlines() if 'Failed' in l)[-800:])
        print(pid, p['property'], 'BAD ' + '; '.join(bad) if bad else 'ok', flush=True)
        sh('git checkout -q -- .', cwd=root)
        if bad: shutil.rmtree(d)
        build(root)
    shutil.rmtree('/tmp/plant')

main()
