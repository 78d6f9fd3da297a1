#!/usr/bin/env python3
"""Builds and confirms the planted bugs.  usage: mkseed.py tools/seeds/X.seed [id ...]
A .seed file holds entries:
== id | property | package dir of the demo
needs: ...
breaks: ...
@@ file
<<<<
old
====
new
>>>>
test:
go test source (external package), until the next '== ' line
Each entry is applied to a scratch copy; it is kept only if it builds, the stable tests pass, it changes original
lines only, and the demo passes without it and fails with it.  With XXV set, says whether its check catches it."""
import sys,os,re,json,subprocess,shutil,tempfile
V='/verif'; REPO='/repo'
def sh(c,cwd=None,timeout=600):
    p=subprocess.run(['bash','-c',c],cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=timeout); return p.returncode,p.stdout
def parse(fn):
    out=[];cur=None;mode=None
    for l in open(fn).read().split('\n'):
        if l.startswith('== '):
            i,p,d=[x.strip() for x in l[3:].split('|')][:3]; cur={'flags':'-race ' if '| race' in l else '','id':i,'p':p,'d':d,'e':[],'t':'','needs':'','breaks':''}; out.append(cur); mode=None
        elif mode=='test': cur['t']+=l+'\n'
        elif mode=='old':
            if l=='====': mode='new'
            else: cur['e'][-1][1].append(l)
        elif mode=='new':
            if l=='>>>>': mode=None
            else: cur['e'][-1][2].append(l)
        elif l.startswith('needs: '): cur['needs']=l[7:]
        elif l.startswith('breaks: '): cur['breaks']=l[8:]
        elif l.startswith('@@ '): f=l[3:].strip(); cur['f']=f
        elif l=='<<<<': cur['e'].append((cur['f'],[],[])); mode='old'
        elif l=='test:': mode='test'
    return out
DEMO='''#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken.  Run with the repository as working directory.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOSUMDB=off
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd); o=$(mktemp); out=$(mktemp)
echo "{\\"Replace\\":{\\"$repo/%(d)s/zz_demo_test.go\\":\\"$here/demo_test.go.txt\\"}}" > "$o"
timeout 200 go test %(f)s-overlay "$o" -vet=off -count=1 -timeout 120s -run '^TestDemo$' ./%(d)s >"$out" 2>&1; rc=$?
tail -n 40 "$out"; grep -q '^ok' "$out" || rc=1
rm -f "$o" "$out"
exit $rc
'''
def main():
    specs=parse(sys.argv[1]); want=set(sys.argv[2:])
    root=subprocess.check_output(['git','-C',REPO,'rev-list','--max-parents=0','HEAD'],text=True).strip()
    stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    bad=0
    for s in specs:
        if want and s['id'] not in want: continue
        W=tempfile.mkdtemp(prefix='seed'); R=W+'/repo'
        sh('cp -a %s %s'%(REPO,R)); why=None; caught='?'
        try:
            for f,o,n in s['e']:
                src=open(R+'/'+f).read(); o='\n'.join(o); n='\n'.join(n)
                if src.count(o)!=1: why='old text occurs %d times in %s: %r'%(src.count(o),f,o[:60]); break
                open(R+'/'+f,'w').write(src.replace(o,n))
            if why: raise Exception(why)
            rc,diff=sh('git diff --no-color',R)
            # removed lines must be original
            for f in set(e[0] for e in s['e']):
                bl=subprocess.run(['git','-C',REPO,'blame','-s','HEAD','--',f],stdout=subprocess.PIPE).stdout.decode('utf8','replace').split('\n')
                orig=[l.startswith('^') for l in bl]
                rc,d0=sh('git diff -U0 --no-color -- '+f,R); anyo=False
                for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ',d0,re.M):
                    a=int(m[1]); k=int(m[2] or '1')
                    for i in range(a,a+k):
                        if not orig[i-1]: raise Exception('changes a line of a fix commit: %s:%d %s'%(f,i,bl[i-1]))
                        anyo=True
                if not anyo: print('   note: %s only adds lines in %s'%(s['id'],f))
            D=V+'/seeded/'+s['id']; N=W+'/new'; os.makedirs(N)
            open(N+'/patch.diff','w').write(diff)
            open(N+'/demo.sh','w').write(DEMO%{'d':s['d'],'f':s['flags']}); os.chmod(N+'/demo.sh',0o755)
            open(N+'/demo_test.go.txt','w').write(s['t'].strip()+'\n')
            json.dump({'property':s['p'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(N+'/meta.json','w'),indent=1)
            rc,o=sh('git stash -q && bash %s/demo.sh'%N,R)
            if rc: raise Exception('demo fails on the unchanged tree:\n'+o)
            rc,o=sh('git apply %s/patch.diff && git stash drop -q; . /opt/vp/env.sh; go vet ./... >/dev/null 2>&1; go build ./... && go test ./... -json 2>&1'%N,R)
            ok=set(); 
            for l in o.split('\n'):
                try: j=json.loads(l)
                except: continue
                if j.get('Action')=='pass' and 'Test' in j: ok.add(j['Package']+'/'+j['Test'])
            if stable-ok: raise Exception('tests fail: %s %s'%(sorted(stable-ok)[:4],o[-600:] if not ok else ''))
            rcs=[sh('bash %s/demo.sh'%N,R)[0] for _ in range(2)]
            if 0 in rcs: raise Exception('demo passes with the change %s'%rcs)
            if os.environ.get('XXV'):
                os.makedirs(W+'/v/evidence',exist_ok=True)
                rc,o=sh('%s -property %s -verif %s/v -repo %s'%(os.environ['XXV'],s['p'],W,R))
                caught={0:'MISSED',1:'caught'}.get(rc,'rc=%d'%rc)
            shutil.rmtree(D,ignore_errors=True); shutil.copytree(N,D)
            print('ok  %-34s %s %s'%(s['id'],s['p'],caught),flush=True)
        except Exception as ex:
            bad+=1; print('BAD %-34s %s: %s'%(s['id'],s['p'],ex),flush=True)
        finally: shutil.rmtree(W,ignore_errors=True)
    sys.exit(1 if bad else 0)
main()
