import json,sys,subprocess,os
d=sys.argv[1]
cc=json.load(open('/repo/_build/compile_commands.json'))
ch=set(subprocess.run(['git','diff','--name-only'],cwd=d,capture_output=True,text=True).stdout.split())
for c in cc:
    f=c['file']
    if not f.startswith('/repo/lib/'): continue
    cmd=c['command'].replace('/repo/lib',d+'/lib').replace('/repo/app',d+'/app')
    import shlex
    a=shlex.split(cmd)
    if '-o' in a: i=a.index('-o'); del a[i:i+2]
    a=[x for x in a if x!='-c']+['-fsyntax-only']
    r=subprocess.run(a,cwd=c['directory'],capture_output=True,text=True)
    if r.returncode: print(f); print(r.stderr[:2500])
