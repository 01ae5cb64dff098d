#!/usr/bin/env python3
"""mkseed.py SPEC.py...: create and verify seeded/<id>/ from spec files defining seed(...) calls.
Applies the change in /repo, builds, runs the stable tests and the demo, undoes it, and runs the demo again.
mkseed.py --catch ID...: apply each committed patch to a scratch copy and run its property's quick check on it."""
import sys, os, subprocess, json, shutil, re
V = '/verif'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def undo(): sh('git -C /repo checkout -- .')
def seed(id, prop, edits, demo, expect, needs, breaks, raw_demo=None, only=None):
    if only and id not in only: return
    d = f'{V}/seeded/{id}'
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'dirty /repo'
    try:
        for f, old, new in edits:
            p = f'/repo/src/c/{f}' if '/' not in f else '/repo/' + f
            t = open(p).read(); assert t.count(old) == 1, (id, f, 'occurrences', t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        diff = sh('git -C /repo diff').stdout
        # changed lines must be lines of the original repository
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        if raw_demo: open(d + '/demo.sh', 'w').write(raw_demo)
        else:
            open(d + '/demo.scm', 'w').write(demo)
            if expect is None:  # recorded from the unchanged tree, to be read by the author
                with __import__('tempfile').TemporaryDirectory() as tmp: expect = sh(f'cd {tmp} && /repo/_build/pscm_cc --test {d}/demo.scm 2>/dev/null').stdout
                print(expect)
            open(d + '/expected', 'w').write(expect)
            open(d + '/demo.sh', 'w').write('''#!/bin/bash
# run in /repo after the build; compares the output of the program with the expected one
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
ulimit -c 0
R=$(pwd)
cd "$T"
timeout 60 "$R/_build/pscm_cc" --test "$D/demo.scm" >"$T/out" 2>"$T/err" </dev/null || { echo "exit status $?"; tail -5 "$T/err"; exit 1; }
diff "$D/expected" "$T/out" || exit 1
''')
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
        os.chmod(d + '/demo.sh', 0o755)
        r = sh('bash ' + V + '/tools/repo_test.sh')
        r2 = sh(f'bash {d}/demo.sh', cwd='/repo')
        ok1 = r.returncode == 0; ok2 = r2.returncode != 0
        d_out = r2.stdout
    finally:
        undo()
    sh('bash /opt/vp/build.sh')
    r3 = sh(f'bash {d}/demo.sh', cwd='/repo')
    blame = []
    for f, old, new in edits:
        rel = f'src/c/{f}' if '/' not in f else f
        pass
    print(id, 'tests', 'ok' if ok1 else 'FAIL ' + r.stdout[-300:], '| patched demo', 'fails' if ok2 else 'PASSES!!', '| clean demo', 'ok' if r3.returncode == 0 else 'FAILS!! ' + (r3.stdout + r3.stderr)[-400:])
    if not (ok1 and ok2 and r3.returncode == 0): shutil.rmtree(d)
    sys.stdout.flush()
def catch(ids):
    s = '/tmp/seedcatch'; res = []
    for i in ids:
        shutil.rmtree(s, ignore_errors=True); sh(f'mkdir -p {s}; cd /repo && git archive HEAD | tar x -C {s}')
        r = sh(f'cd {s} && git init -q . 2>/dev/null; git apply {V}/seeded/{i}/patch.diff')
        if r.returncode: print(i, 'does not apply', r.stderr); continue
        p = json.load(open(f'{V}/seeded/{i}/meta.json'))['property']
        import time; t = time.time()
        r = subprocess.run(['python3', V + '/check.py', p, 'quick'], capture_output=True, text=True, env=dict(os.environ, PSCM_REPO=s, PSCM_OUT='/tmp/seedcatch_out'))
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        print(i, p, 'CAUGHT' if r.returncode == 1 and v else 'MISSED rc=%d' % r.returncode, '%.0fs' % (time.time() - t)); sys.stdout.flush()
        if '-v' in sys.argv: print(r.stdout[-1500:])
    shutil.rmtree(s, ignore_errors=True)
if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == '--catch':
        catch([x for x in a[1:] if x != '-v'] or sorted(os.listdir(V + '/seeded')))
    else:
        only = a[1:] or None
        exec(open(a[0]).read(), {'seed': lambda *x, **k: seed(*x, **k, only=only)})
