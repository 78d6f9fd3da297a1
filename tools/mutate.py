#!/usr/bin/env python3
"""tools/mutate.py SECONDS [SEED]: a random sample of small mutants (xxverif/refac -op mutate) of a copy of /repo; prints those
that build and pass the tests and that no check reports, with their change. Needs XXV (the analyser) and REFAC."""
import subprocess, sys, os, random, time, shutil, re, json
from concurrent.futures import ThreadPoolExecutor
XXV, REFAC = os.environ['XXV'], os.environ['REFAC']
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [c['property'] for c in json.load(open(here + '/MANIFEST.json'))['checks']]
env = dict(os.environ, GOFLAGS='-mod=mod', GOSUMDB='off')
known = {'TestNew', 'TestClient_Get', 'TestCache_HDel'}
def sh(cmd, cwd=None, t=900):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return -1, 'timeout'
n = int(sh([REFAC, '-repo', '/repo', '-op', 'mutate', '-at', '-1'])[1].split()[1])
random.seed(int(sys.argv[2]) if len(sys.argv) > 2 else 1)
sites = list(range(n)); random.shuffle(sites)
end = time.time() + int(sys.argv[1])
first = {'cache': 'K12 K01 K07 K05 K02 K06 K08 K10 K03 K04 K09 K11 M01 R05 T01', 'redis': 'N02 N01 N03 N05 N06 R07 R08 R03 R02 N04 X02 T01',
         'rdb': 'D02 D01 R01 R02 R03 R04 Z01', 'ziplist': 'D04 R04', 'zipmap': 'D05', 'intset': 'D03', 'lzf': 'Z01 M03', '': 'X01 X02 R06 R05'}
def one(k):
    if time.time() > end:
        return
    d = '/tmp/mut.d/%d' % k
    shutil.copytree('/repo', d, symlinks=True, ignore=shutil.ignore_patterns('.git'))
    try:
        rc, where = sh([REFAC, '-repo', d, '-op', 'mutate', '-at', str(k)])
        where = where.split('\n')[0]
        if sh(['go', 'build', './...'], d)[0]: return 'nobuild'
        rc, out = sh(['go', 'test', '-vet=off', '-timeout', '60s', './...'], d, 120)
        fails = set(re.findall(r'--- FAIL: (\w+)', out))
        if fails - known or 'panic:' in out.replace('panic: dial', '') and 'TestNew' not in out: return 'killed'
        rel = os.path.relpath(where.split()[1].split(':')[0], d)
        g = first.get(os.path.basename(os.path.dirname(rel)), '').split()
        for i in g + [i for i in ids if i not in g]:
            rc, out = sh([XXV, '-property', i, '-repo', d, '-verif', d + '/.v'])
            if rc == 1 and 'VIOLATION' in out: return 'caught'
            if rc != 0: print('ODD', k, i, rc, out[:200], flush=True)
        print('SURVIVOR', where.replace(d, ''), flush=True)
        return 'survivor'
    except Exception as e:
        print('ERR', k, e, flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
os.makedirs('/tmp/mut.d', exist_ok=True)
with ThreadPoolExecutor(int(os.environ.get('J', '6'))) as ex:
    rs = list(ex.map(one, sites))
for w in ('nobuild', 'killed', 'caught', 'survivor'):
    print(w, rs.count(w))
