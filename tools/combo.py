import subprocess,os
ids=sorted(f[:-5] for f in os.listdir('/verif/refactor'))
sh=lambda c: subprocess.run(c,shell=True,capture_output=True,text=True)
left=ids[:]; combos=[]
os.makedirs('/tmp/combo',exist_ok=True)
sh('rm -f /tmp/combo/*')
while left:
    sh('cd /tmp/wt && git checkout -q -- . && git clean -fdq')
    got=[]
    for i in left[:]:
        if sh('cd /tmp/wt && git apply /verif/refactor/%s.diff'%i).returncode==0:
            r=sh('. /opt/vp/env.sh; cd /tmp/wt && go vet ./gitdiff && go test ./...')
            if r.returncode==0: got.append(i); left.remove(i); sh('cd /tmp/wt && git add -A')
            else: sh('cd /tmp/wt && git checkout -q -- . ')
    sh('cd /tmp/wt && git diff HEAD > /tmp/combo/c%d.diff; git reset -q --hard'%len(combos))
    combos.append(got); print(len(combos)-1,got,flush=True)
