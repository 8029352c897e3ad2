#!/usr/bin/env python3
"""run.py LOG SEED JOBS FILE=COUNT...: tries COUNT random single changes of each file of /repo in scratch worktrees: those
that compile and pass the stable tests are given to the quick checks, which stop at the first violation. Writes one JSON
object per change to LOG; changes already in LOG are not tried again."""
import sys, os, subprocess, json, random, threading, queue, shutil, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
ENV = '. /opt/vp/env.sh; '
CHECKS = {'sfnt_cmap.go': 'C05 C06 C12 C17 C20 C02 C01', 'sfnt_truetype.go': 'C07 C09 C28 C10 C11 C12 C17 C20 C02 C01', 'sfnt_cff.go': 'C08 C12 C11 C17 C20 C09 C02 C01',
 'sfnt.go': 'C12 C28 C09 C17 C13 C10 C02 C01', 'sfnt_os2.go': 'C28 C09 C12 C17 C02 C01', 'sfnt_merge.go': 'C20 C18 C21 C25 C02', 'sfnt_subset.go': 'C17 C18 C19 C12 C27 C20 C02',
 'sfnt_util.go': 'C12 C17 C28 C02', 'woff.go': 'C13 C26 C01', 'woff2.go': 'C14 C15 C26 C01', 'eot.go': 'C16 C26 C01', 'font.go': 'C26 C13 C16 C28 C01', 'afm.go': 'C23 C01 C02',
 'system.go': 'C24', 'cmd': 'C25'}
def sh(cmd, cwd, env=None, timeout=1200):
    e = dict(os.environ); e.update(env or {})
    try: return subprocess.run(['nice', 'bash', '-c', ENV + cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=e, timeout=timeout)
    except subprocess.TimeoutExpired as t:
        class R: returncode = 124; stdout = 'timeout'
        return R
def main():
    log, seed, jobs = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    rnd = random.Random(seed)
    todo = []
    done = set()
    if os.path.exists(log):
        for l in open(log):
            m = json.loads(l); done.add((m['file'], m['Start'], m['End'], m['New']))
    for a in sys.argv[4:]:
        f, n = a.split('='); lo = None
        if ':' in f: f, fn = f.split(':')
        else: fn = None
        ms = [json.loads(l) for l in subprocess.check_output(['bash', '-c', ENV + 'cd /repo; go build -o /tmp/mutgen %s/tools/mut/gen.go && /tmp/mutgen %s' % (HERE, f)], text=True).splitlines()]
        ms = [m for m in ms if (m['file'], m['Start'], m['End'], m['New']) not in done and (not fn or m['func'] in fn.split(','))]
        todo += rnd.sample(ms, min(int(n), len(ms)))
    rnd.shuffle(todo)
    print(len(todo), 'changes')
    q = queue.Queue()
    for m in todo: q.put(m)
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    lock = threading.Lock()
    def work():
        wt = tempfile.mkdtemp(prefix='mutwt-', dir='/tmp'); os.rmdir(wt)
        with lock: subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', wt, 'HEAD'])
        v = tempfile.mkdtemp(prefix='mutv-', dir='/tmp')
        while True:
            try: m = q.get_nowait()
            except queue.Empty: break
            if os.path.exists('/tmp/mut.stop'): break
            t0 = time.time()
            shutil.rmtree(v); os.mkdir(v)
            for x in ('harness', 'check.sh', 'known_findings.json'): subprocess.check_call(['cp', '-a', HERE + '/' + x, v])
            sh('git checkout -q -- .', wt)
            p = os.path.join(wt, m['file']); s = open(p, 'rb').read()
            assert s[m['Start']:m['End']].decode() == m['Old']
            open(p, 'wb').write(s[:m['Start']] + m['New'].encode() + s[m['End']:])
            m['res'] = None
            if sh('go build ./... && cd cmd/fontcmd && go build -o /dev/null .', wt).returncode: m['res'] = 'nobuild'
            else:
                r = sh('go test -json -vet=off -count=1 -timeout 60s ./... ; cd cmd/fontcmd && go test -json -vet=off -count=1 ./...', wt)
                passed = set()
                for l in r.stdout.splitlines():
                    try: e = json.loads(l)
                    except Exception: continue
                    if e.get('Action') == 'pass' and e.get('Test'): passed.add(e['Package'] + '/' + e['Test'])
                if any(s not in passed for s in base): m['res'] = 'tests'
            if not m['res']:
                m['checks'] = []
                key = 'cmd' if m['file'].startswith('cmd/') else m['file']
                for c in CHECKS[key].split():
                    r = sh('timeout 900 bash %s/check.sh %s quick' % (v, c), '/tmp', {'VERIF_REPO': wt, 'VERIF_STOP': '1'})
                    m['checks'].append('%s:%d' % (c, r.returncode))
                    if r.returncode == 1 and 'VIOLATION' in r.stdout:
                        m['res'] = c; m['key'] = [l.strip()[:150] for l in r.stdout.splitlines() if l.strip().startswith('key=')][:1]; break
                    elif r.returncode: m.setdefault('err', []).append(r.stdout[-400:])
                m['res'] = m['res'] or 'SURVIVED'
            m['t'] = round(time.time() - t0)
            with lock: open(log, 'a').write(json.dumps(m) + '\n')
        with lock: subprocess.call(['git', '-C', '/repo', 'worktree', 'remove', '--force', wt])
        shutil.rmtree(v)
    ts = [threading.Thread(target=work) for _ in range(jobs)]
    for t in ts: t.start()
    for t in ts: t.join()
main()
