import sys,subprocess,os,shutil
exec(open(sys.argv[1]).read())
base=sys.argv[2]; only=set(sys.argv[3:])
for x in M:
    id,prop,edits=x
    if only and id not in only and prop not in only: continue
    d='/tmp/mutw2'
    subprocess.run(['rm','-rf',d]); subprocess.run(['git','clone','-q','-s',base,d],check=True)
    bad=None
    for f,a,b in edits:
        p=d+'/'+f; s=open(p).read()
        if s.count(a)<1: bad=(f,a); break
        open(p,'w').write(s.replace(a,b,1))
    if bad: print(id,prop,'NOEDIT',bad,flush=True); continue
    try:
        r=subprocess.run(['python3','check.py',prop,'--repo',d],cwd='/tmp/vw',capture_output=True,text=True,timeout=900)
        out=r.stdout+r.stderr
        v=[l for l in out.splitlines() if l.startswith('VIOLATION')]
        print(id,prop,'rc',r.returncode,'CAUGHT' if v and r.returncode==1 else 'MISSED',(out.strip().splitlines() or [''])[-1][:110] if r.returncode not in(0,1) else '',flush=True)
    except subprocess.TimeoutExpired: print(id,prop,'TIMEOUT',flush=True)
