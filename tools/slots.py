#!/usr/bin/env python3
"""Development tool: run the checks against changed copies of /repo, several at a time, under /tmp/slots.
   slots.py seeds [ID...]        each planted bug in /verif/seeded: which checks report it (own property first)
   slots.py all ID...            every check against the planted bugs named
   slots.py clean SEED...        every check on the unchanged tree with other VERIF_SEEDs"""
import os, sys, subprocess, json, shutil, re, queue, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = os.environ.get('SLOT_DIR', '/tmp/slots')
N = int(os.environ.get('SLOTS', '4'))
WORKERS = os.environ.get('SIM_WORKERS', '2')

class Slot:
    def __init__(self, i):
        self.d = f'{BASE}/{i}'; self.repo = self.d + '/repo'; self.v = self.d + '/verif'
        os.makedirs(self.d, exist_ok=True)
        if not os.path.exists(self.repo):
            subprocess.check_call(['git', 'clone', '-q', '/repo', self.repo])
        subprocess.check_call(['git', '-C', self.repo, 'fetch', '-q', 'origin'])
        head = subprocess.check_output(['git', '-C', '/repo', 'rev-parse', 'HEAD'], text=True).strip()
        subprocess.check_call(['git', '-C', self.repo, 'checkout', '-qf', head])
        os.makedirs(self.v, exist_ok=True)
        subprocess.check_call(['rsync', '-a', '--delete', V + '/sim', V + '/check.sh', V + '/KNOWN_FINDINGS', self.v + '/']) if shutil.which('rsync') else \
            subprocess.check_call(f'rm -rf {self.v}/sim && cp -a {V}/sim {V}/check.sh {V}/KNOWN_FINDINGS {self.v}/', shell=True)
    def reset(self):
        subprocess.check_call(['git', '-C', self.repo, 'checkout', '-qf', '--', '.'])
    def apply(self, patch):
        self.reset()
        return subprocess.run(['git', '-C', self.repo, 'apply', patch]).returncode == 0
    def build(self):
        return subprocess.run([self.v + '/check.sh', 'build'], capture_output=True, text=True)
    def check(self, prop, seed='1', runs=None):
        env = dict(os.environ, VERIF_SEED=str(seed), VERIF_TIER='quick', SIM_WORKERS=WORKERS)
        if runs: env['SIM_RUNS'] = str(runs)
        return subprocess.run([self.v + '/target/release/sim', 'check', prop], capture_output=True, text=True, cwd=self.v,
                              env=dict(env, VERIF_DIR=self.v))
    def tests(self):
        os.makedirs(self.repo + '/target', exist_ok=True)
        return subprocess.run(['cargo', 'test', '--workspace', '--offline', '-q'], cwd=self.repo, capture_output=True, text=True,
                              env=dict(os.environ, CARGO_TARGET_DIR=self.d + '/tgt'))

def pool(jobs, fn):
    q = queue.Queue()
    for j in jobs: q.put(j)
    lock = threading.Lock()
    def work(i):
        s = Slot(i)
        while True:
            try: j = q.get_nowait()
            except queue.Empty: return
            try: out = fn(s, j)
            except Exception as e: out = f'{j}: {e!r}'
            with lock: print(out, flush=True)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(N)]
    [t.start() for t in ts]; [t.join() for t in ts]

def props():
    return sorted(set(re.findall(r'id: "(C\d+)"', open(V + '/sim/src/props.rs').read())))

def first(out):
    for l in out.stdout.splitlines():
        if 'VIOLATION' in l: return l[:160]
    return (out.stdout + out.stderr)[-160:].replace('\n', ' ')

def seeds(s, id, every=False):
    d = f'{V}/seeded/{id}'; prop = json.load(open(d + '/meta.json'))['property']
    if not s.apply(d + '/patch.diff'): return f'{id}: does not apply'
    b = s.build()
    if b.returncode: return f'{id}: build failed {b.stderr[-300:]}'
    runs = os.environ.get('RUNS')
    res = []
    for p in ([prop] if not every else props()):
        r = s.check(p, runs=runs)
        if p == prop: own = r
        if r.returncode: res.append(p)
    s.reset()
    return f'{id}: {"CAUGHT" if own.returncode == 1 else "MISSED"} rc={own.returncode} by={",".join(res)} :: {first(own) if own.returncode else ""}'

if __name__ == '__main__':
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd in ('seeds', 'all'):
        pool(args or sorted(os.listdir(V + '/seeded')), lambda s, j: seeds(s, j, cmd == 'all'))
    elif cmd == 'clean':
        def go(s, j):
            seed, p = j; s.reset(); s.build()
            r = s.check(p, seed=seed, runs=os.environ.get('RUNS'))
            return f'{p} seed={seed} rc={r.returncode} {first(r) if r.returncode else ""}'
        pool([(x, p) for x in args for p in props()], go)
