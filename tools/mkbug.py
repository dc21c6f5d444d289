#!/usr/bin/env python3
"""mkbug.py FILE.py [id...]: make and confirm planted bugs."""
import sys,os,subprocess,json,re,shutil,runpy,time
BASE='00485eb'
R='/repo'
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
DEMO='''#!/bin/bash
# Run in the repository: exit 0 when the behaviour is right, non-zero when it is not.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
cat > "$tmp/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[workspace]

[dependencies]
@DEPS@
EOF
cd "$tmp" || exit 2
RUSTUP_TOOLCHAIN=1.82.0 CARGO_TARGET_DIR="$tmp/target" cargo run --offline -q
'''
def clean(): 
    sh('git -C /repo checkout -- .'); 
stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def main():
    bugs=runpy.run_path(sys.argv[1])['BUGS']
    want=sys.argv[2:]
    for b in bugs:
        if want and b['id'] not in want: continue
        d='/verif/seeded/'+b['id']
        if not want and os.path.exists(d+'/OK'): continue
        os.makedirs(d,exist_ok=True)
        assert not sh('git -C /repo status --short').stdout.strip()
        if 'demo_sh' in b: open(d+'/demo.sh','w').write(b['demo_sh'])
        else:
            deps='\n'.join('%s = { path = "$repo/%s"%s }'%(n,p,x) for n,p,x in [(t+('',))[:3] for t in b['deps']])
            deps+=''.join('\n'+x for x in b.get('xdeps',[]))
            open(d+'/demo.sh','w').write(DEMO.replace('@DEPS@',deps))
            open(d+'/main.rs','w').write(b['main'])
        for n,t in b.get('files',{}).items(): open(d+'/'+n,'w').write(t)
        os.chmod(d+'/demo.sh',0o755)
        json.dump({'property':b['property'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1)
        t0=time.time()
        r=sh('bash %s/demo.sh'%d,cwd=R)
        if r.returncode!=0: print(b['id'],'DEMO FAILS ON CLEAN',r.stdout[-1500:]); shutil.rmtree(d); continue
        try:
            ok=True
            for f,old,new in b['edits']:
                s=open(R+'/'+f).read()
                if s.count(old)!=1: print(b['id'],'EDIT COUNT',s.count(old),f,repr(old[:60])); ok=False; break
                open(R+'/'+f,'w').write(s.replace(old,new))
            if not ok: shutil.rmtree(d); continue
            patch=subprocess.run('git -C /repo diff',shell=True,stdout=subprocess.PIPE).stdout
            open(d+'/patch.diff','wb').write(patch)
            # original lines?
            orig=0
            for f in {e[0] for e in b['edits']}:
                bl=sh('git -C /repo blame -s HEAD -- '+f).stdout.splitlines()
                for h in re.finditer(r'^@@ -(\d+)',sh('git -C /repo diff -U0 -- '+f).stdout,re.M): pass
                cur=None
                for l in sh('git -C /repo diff -U0 -- '+f).stdout.splitlines():
                    m=re.match(r'@@ -(\d+)',l)
                    if m: cur=int(m.group(1)); continue
                    if cur and l.startswith('-'):
                        if bl[cur-1].startswith('^'): orig+=1
                        cur+=1
            if not orig: print(b['id'],'NO ORIGINAL LINE CHANGED'); shutil.rmtree(d); continue
            r=sh('bash /opt/vp/build.sh')
            if r.returncode: print(b['id'],'BUILD FAILS',r.stdout[-1500:]); shutil.rmtree(d); continue
            sh('bash /opt/vp/test.sh /tmp/ob.json')
            p=set(json.load(open('/tmp/ob.json'))['passed'])
            if stable-p: print(b['id'],'TESTS CATCH IT',list(stable-p)[:4]); shutil.rmtree(d); continue
            r=sh('timeout 300 bash %s/demo.sh'%d,cwd=R)
            if r.returncode==0: print(b['id'],'DEMO PASSES WITH BUG',r.stdout[-500:]); shutil.rmtree(d); continue
            t1=time.time()
            r=sh('VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./run.sh '+b['property'],cwd='/verif')
            v=[l for l in r.stdout.splitlines() if l.startswith('VIOLATION property='+b['property'])]
            print(b['id'],b['property'],'CAUGHT' if r.returncode==1 and v else '**MISSED** rc=%d %s'%(r.returncode,r.stdout[-300:]),'%.0fs'%(time.time()-t1),flush=True)
            open('/tmp/bugs/results','a').write('%s %s %s\n'%(b['id'],b['property'],'caught' if r.returncode==1 and v else 'missed'))
        finally: clean()
main()
