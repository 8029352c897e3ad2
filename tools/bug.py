#!/usr/bin/env python3
"""bug.py SPEC...: makes /verif/seeded/<id> from a specification file, after confirming in a scratch worktree that the
change compiles, passes the stable tests and that the demonstration fails only with it.

SPEC: lines `id:`, `property:`, `needs:`, `breaks:`, then blocks
  @@ FILE / <<<< old ==== new >>>> (as in ed.py), and last a line `@@ demo` followed by the body of demo_test.go
  (package font_test) or `@@ demo.sh` followed by a shell script."""
import sys, os, subprocess, json, shutil, re, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = '. /opt/vp/env.sh; '
DEMO = '''#!/bin/bash
# Runs the demonstration beside this file as an external test of the package in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
tmp=$(mktemp -d /tmp/demo-XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
cp go.mod go.sum "$tmp/" || exit 2
cp "$here/demo_test.go.txt" "$tmp/demo_test.go" || exit 2
echo "{\\"Replace\\":{\\"$PWD/zz_verif_demo_test.go\\":\\"$tmp/demo_test.go\\"}}" >"$tmp/overlay.json"
timeout 200 go test %s-modfile="$tmp/go.mod" -overlay "$tmp/overlay.json" -vet=off -count=1 -timeout 120s -run '^TestVerifDemo$' .
'''
def sh(cmd, cwd):
    return subprocess.run(['bash', '-c', ENV + cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
def one(spec):
    t = open(spec).read()
    head, *parts = re.split(r'^@@ ', t, flags=re.M)
    meta = {}
    for l in head.splitlines():
        if ':' in l:
            k, v = l.split(':', 1); meta[k.strip()] = v.strip()
    bid = meta['id']
    wt = tempfile.mkdtemp(prefix='bugwt-', dir='/tmp')
    os.rmdir(wt)
    subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', wt, 'HEAD'])
    try:
        out = os.path.join(HERE, 'seeded', bid)
        dt = tempfile.mkdtemp(prefix='bugout-', dir='/tmp')
        demo = None
        for p in parts:
            name, body = p.split('\n', 1)
            name = name.strip()
            if name == 'demo' or name == 'demo race':
                if body.startswith('//include '): # imports, body with the shared helpers
                    first, body = body.split('\n', 1)
                    imports = ['encoding/binary', 'fmt', 'os', 'sort', 'testing', 'github.com/tdewolff/font'] + [x for x in first.split()[2:] if not x.endswith('.go')]
                    for x in first.split()[2:]:
                        if x.endswith('.go'): body += open(os.path.join(HERE, 'tools/bugs/lib', x)).read()
                    body = 'package font_test\n\nimport (\n' + ''.join('\t"%s"\n' % i for i in imports) + ')\n\n' + body + open(os.path.join(HERE, 'tools/bugs/lib', first.split()[1])).read()
                open(dt + '/demo_test.go.txt', 'w').write(body)
                open(dt + '/demo.sh', 'w').write(DEMO % ('-race ' if 'race' in name else ''))
            elif name == 'demo.sh':
                open(dt + '/demo.sh', 'w').write(body)
            elif name.startswith('aux '):
                open(dt + '/' + name[4:], 'w').write(body)
            else:
                r = subprocess.run(['python3', HERE + '/tools/ed.py', os.path.join(wt, name)], input=body, text=True)
                if r.returncode: print(bid, 'edit failed'); return False
        os.chmod(dt + '/demo.sh', 0o755)
        r = sh('gofmt -l . ', wt)
        if r.stdout.strip(): print(bid, 'gofmt', r.stdout)
        d = subprocess.run(['git', '-C', wt, 'diff'], stdout=subprocess.PIPE).stdout
        if not d.strip(): print(bid, 'no change'); return False
        new = 0; old = 0
        for f in subprocess.check_output(['git', '-C', wt, 'diff', '--name-only'], text=True).split():
            bl = subprocess.check_output(['git', '-C', wt, 'blame', '-s', '--abbrev=40', 'a7d5613..HEAD', '--', f], text=True, errors='replace').splitlines()
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', subprocess.check_output(['git', '-C', wt, 'diff', '-U0', '--', f], text=True, errors='replace'), re.M):
                a, n = int(m.group(1)), int(m.group(2) or 1)
                for i in range(a, a + n):
                    if bl[i-1].startswith('^'): old += 1
                    else: new += 1
        if new or not old: print(bid, 'WARNING: changes %d original lines and %d lines of fixes' % (old, new))
        r = sh('go build ./... && go vet . 2>&1 | head -3; cd cmd/fontcmd && go build -o /dev/null .; ', wt)
        sh('git checkout -q go.sum cmd/fontcmd/go.sum', wt)
        r = sh('go test -json -vet=off -count=1 ./...; cd cmd/fontcmd && go test -json -vet=off -count=1 ./...', wt)
        passed = set()
        for l in r.stdout.splitlines():
            try: e = json.loads(l)
            except Exception: continue
            if e.get('Action') == 'pass' and e.get('Test'): passed.add(e['Package'] + '/' + e['Test'])
        base = json.load(open('/opt/vp/BASELINE.json'))['stable']
        miss = [s for s in base if s not in passed]
        sh('git checkout -q go.sum cmd/fontcmd/go.sum', wt)
        if miss: print(bid, 'stable tests fail:', miss[:5], r.stdout[-1500:] if len(miss) > 20 else ''); return False
        r = sh('bash %s/demo.sh' % dt, wt)
        if r.returncode == 0: print(bid, 'demo passes with the change', r.stdout[-500:]); return False
        bad = r.stdout
        if 'build failed' in bad or 'setup failed' in bad: print(bid, 'demo does not build', bad[-1500:]); return False
        sh('git stash -q', wt)
        sh('git checkout -q .', wt)
        r = sh('bash %s/demo.sh' % dt, wt)
        sh('git stash drop -q', wt)
        if r.returncode != 0: print(bid, 'demo fails without the change', r.stdout[-1500:]); return False
        if os.path.exists(out): shutil.rmtree(out)
        os.makedirs(out)
        for f in os.listdir(dt): shutil.copy(dt + '/' + f, out)
        open(out + '/patch.diff', 'wb').write(d)
        json.dump({'property': meta['property'], 'needs': meta['needs'], 'what_it_breaks': meta['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        print(bid, 'ok:', [l for l in bad.splitlines() if 'FAIL' not in l and l.strip()][:2])
        return True
    finally:
        subprocess.call(['git', '-C', '/repo', 'worktree', 'remove', '--force', wt])
        shutil.rmtree(dt, ignore_errors=True)
for s in sys.argv[1:]: one(s)
