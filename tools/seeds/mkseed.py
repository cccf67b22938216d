#!/usr/bin/env python3
"""mkseed.py [ID...]: (re)build the planted bugs in seeds_def.py into /verif/seeded and confirm them."""
import sys,os,subprocess,shutil,json
sys.path.insert(0,os.path.dirname(__file__))
from seeds_def import BUGS
K=os.path.dirname(os.path.abspath(__file__)); OUT='/verif/seeded'; W='/tmp/seedwork'
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def main():
    ids=sys.argv[1:] or [b['id'] for b in BUGS]
    for b in BUGS:
        if b['id'] not in ids: continue
        sh(f'rm -rf {W}; mkdir -p {W}; cp -a /repo {W}/repo; cd {W}/repo && git checkout -q -- .')
        for f,o,n in b['edits']:
            p=f'{W}/repo/{f}'; t=open(p).read()
            if t.count(o)!=1: print(b['id'],'edit matches',t.count(o),'times:',o[:60]); sys.exit(1)
            open(p,'w').write(t.replace(o,n))
        d=f"{OUT}/{b['id']}"; os.makedirs(d,exist_ok=True)
        open(d+'/patch.diff','w').write(sh(f'cd {W}/repo && git diff').stdout)
        shutil.copy(K+'/demo.sh',d); shutil.copy(K+'/mock.rs',d)
        for x in b.get('extra',[]): shutil.copy(K+'/'+x,d)
        open(d+'/main.rs','w').write('mod mock;\nuse mock::*;\n#[allow(unused_imports)]\nuse franka::*;\n'+b['main'])
        json.dump({'property':b['property'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1)
        # which removed lines are not original?
        mine=sh("cd /repo && git diff 6f09972 HEAD -- src | grep '^+' | cut -c2-").stdout.split('\n')
        mine={x.strip() for x in mine if len(x.strip())>6}
        rem=[l[1:].strip() for l in open(d+'/patch.diff') if l.startswith('-') and not l.startswith('---')]
        bad=[r for r in rem if r in mine]
        env="export HOME=/root CARGO_NET_OFFLINE=true;"
        r=sh(f'cd {W}/repo && {env} cargo test --workspace --all-features --offline -- --test-threads 1 --skip gripper::tests:: 2>&1 | grep -E "^test result|FAILED|error" ; exit ${{PIPESTATUS[0]}}',executable='/bin/bash')
        tests='tests ok' if r.returncode==0 else 'TESTS FAIL\n'+r.stdout
        a=sh(f'cd /repo && bash {d}/demo.sh'); c=sh(f'cd {W}/repo && bash {d}/demo.sh')
        ok=a.returncode==0 and c.returncode not in (0,3) and r.returncode==0 and not (bad and len(bad)==len(rem)) and rem
        print(b['id'],'OK' if ok else 'BAD',tests,'| unchanged',a.returncode,a.stdout.strip()[-150:],'| patched',c.returncode,c.stdout.strip()[-200:],'| mine:',bad if bad else '-', '' if rem else 'NO REMOVED LINES',flush=True)
    sh(f'rm -rf {W}')
main()
