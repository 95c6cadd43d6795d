"""mut.py SPEC.py [name...]: apply each mutant on a scratch copy and run its checks; expects '!' alarms for bugs and silence for refactorings"""
import sys, os, subprocess, shutil, re
spec=sys.argv[1]; only=sys.argv[2:]
ns={}; exec(open(spec).read(), ns)
D=os.environ.get('MUT_DIR','/tmp/mutrepo')
os.makedirs(D,exist_ok=True)
for name,kind,checks,edits in ns['M']:
    if only and name not in only: continue
    subprocess.run(['rsync','-a','--delete',os.environ.get('MUT_SRC','/repo')+'/pyforecaster',D+'/'],check=True)
    ok=True
    for f,a,b in edits:
        p=D+'/pyforecaster/'+f; s=open(p).read()
        if s.count(a)<1: print(name,'EDIT NOT FOUND',f,repr(a)[:60]); ok=False; break
        s=s.replace(a,b,1); open(p,'w').write(s)
        r=subprocess.run([sys.executable,'-c','import ast,sys;ast.parse(open(sys.argv[1]).read())',p],capture_output=True,text=True)
        if r.returncode: print(name,'SYNTAX',r.stderr[-200:]); ok=False
    if not ok: continue
    for c in checks.split():
        c,_,sel=c.partition('@')     # C05@QRF,FK restricts a check to some classes
        env=dict(os.environ,SA_REPO=D,SA_EVIDENCE='/tmp/ev')
        if sel: env['SA_ONLY' if c in ('C04','C05') else 'SA_TASKS']=sel
        env['SA_MIN']='1'
        r=subprocess.run([sys.executable,'/verif/check.py','--property',c],capture_output=True,text=True,env=env)
        want=1 if kind=='bug' else 0
        lines=[l for l in r.stdout.splitlines() if l.startswith('  ')and 'note' not in l]
        print('%-4s %-34s %s %s rc=%d %s'%('ok' if r.returncode==want else 'XX',name,kind,c,r.returncode,(lines[0].strip()[:150]+' (+%d)'%(len(lines)-1)) if lines else r.stdout.splitlines()[-1][:120] if r.stdout else r.stderr[-200:]),flush=True)
