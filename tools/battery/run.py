#!/usr/bin/env python3
"""run.py R|M FILE...: applies each listed edit to a copy of /repo and runs the checks.
An edit file holds blocks:  == name [| ids]   then  @@ path / <<<< old ==== new >>>>
R edits keep behaviour: every check must stay quiet. M edits break the named properties."""
import sys, os, re, subprocess, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
XXV = os.environ.get('XXV', '/tmp/xxv')
def parse(f):
    cur = None
    txt = open(f).read()
    for m in re.split(r'^== ', txt, flags=re.M)[1:]:
        head, body = m.split('\n', 1)
        name, _, ids = head.partition('|')
        edits = []
        for b in re.split(r'^@@ ', body, flags=re.M)[1:]:
            path, rest = b.split('\n', 1)
            for o, n in re.findall(r'^<<<<\n(.*?)^====\n(.*?)^>>>>\n?', rest, flags=re.M | re.S):
                edits.append((path.strip(), o, n))
        yield name.strip(), ids.split(), edits
def run(job):
    mode, name, ids, edits, all_ids = job
    d = tempfile.mkdtemp(prefix='bat.', dir='/tmp')
    try:
        shutil.copytree('/repo', d + '/repo', ignore=shutil.ignore_patterns('.git'))
        for p, o, n in edits:
            fn = d + '/repo/' + p
            s = open(fn).read() if os.path.exists(fn) else ''
            if o.strip() and s.count(o) != 1:
                o, n = o[:-1], n[:-1]  # a fragment of a line
            if o.strip() and s.count(o) != 1:
                return f'{name}: EDIT DOES NOT APPLY ({s.count(o)}x) {p}: {o[:60]!r}'
            s = s.replace(o, n) if o.strip() else s + n
            open(fn, 'w').write(s)
        env = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off')
        b = subprocess.run('. /opt/vp/env.sh; cd %s/repo && go vet ./... 2>&1 | grep -v "^#" | head -3; go build ./... 2>&1' % d, shell=True, capture_output=True, text=True)
        if 'error' in b.stderr or re.search(r'\.go:\d+:\d+: (undefined|cannot|syntax|declared|missing|too many|not enough)', b.stdout):
            return f'{name}: DOES NOT BUILD {b.stdout[:300]}'
        hit = {}
        for i in (all_ids if mode == 'R' or os.environ.get('ALL') else ids):
            r = subprocess.run([XXV, '-repo', d + '/repo', '-property', i, '-verif', d], capture_output=True, text=True)
            if r.returncode != 0:
                hit[i] = r.stdout.strip().split('\n')[0][:int(os.environ.get('W', '260'))]
        if mode == 'R':
            return (f'{name}: quiet' if not hit else f'{name}: FALSE ALARM ' + '; '.join(f'{k}: {v}' for k, v in hit.items()))
        miss = [i for i in ids if i not in hit]
        v = (' ' + ' '.join(f'{k}: {v}' for k, v in hit.items())) if os.environ.get('V') else ''
        return f'{name}: ' + ('caught by ' + ' '.join(hit) if not miss else 'MISSED by ' + ' '.join(miss) + ' caught by ' + ' '.join(hit)) + v
    finally:
        shutil.rmtree(d)
mode = sys.argv[1]
all_ids = os.environ.get('IDS', '').split()
sel = os.environ.get('SEL')
jobs = [(mode, n, ids, e, all_ids) for f in sys.argv[2:] for n, ids, e in parse(f) if not sel or re.search(sel, n)]
with ThreadPoolExecutor(int(os.environ.get("J","6"))) as ex:
    for r in ex.map(run, jobs):
        print(r, flush=True)
