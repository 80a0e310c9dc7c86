# usage: app.sh x.py dir  -> clone + apply
rm -rf $2; git clone -q -s /repo $2; python3 - $1 $2 <<'P'
import sys
exec(open(sys.argv[1]).read())
for f,a,b in EDITS:
    p=sys.argv[2]+'/'+f; s=open(p).read()
    if s.count(a)!=1: print('COUNT',s.count(a),f,a[:70]); continue
    open(p,'w').write(s.replace(a,b))
P
