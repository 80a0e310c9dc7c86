#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/seeds/*.py (each: ID, PROPERTY, NEEDS, BREAKS, EDITS, SOURCES, DEMO) and, with
   --verify, confirms each in a scratch copy: builds, keeps the stable tests, demo passes without and fails with it."""
import sys, os, json, shutil, subprocess, glob, runpy
V = '/verif'; KIT = V + '/tools/seedkit'; W = '/tmp/seedwork'
CONN = 'lib/http2_conn.cpp lib/http2_frame_reader.cpp lib/router.cpp lib/access_log.cpp lib/system_clock.cpp lib/static_file_handler.cpp lib/file_reader.cpp lib/hpack/*.cpp'
SERVER = CONN + ' lib/http2_server.cpp lib/tcp_listener.cpp lib/socket_fd.cpp lib/server_config.cpp lib/stop_reason.cpp lib/pollers/*.cpp lib/transports/*.cpp'
def sh(c, cwd=None, t=600):
    p = subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)
    return p.returncode, (p.stdout + p.stderr)
def fresh():
    if not os.path.isdir(W + '/repo'):
        os.makedirs(W, exist_ok=True); sh('cp -a /repo %s/repo' % W)
    sh('git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq -e _build', W + '/repo')
def main():
    args = sys.argv[1:]; verify = '--verify' in args; ids = [a for a in args if a[0] != '-']
    for f in sorted(glob.glob(V + '/tools/seeds/*.py')):
        g = runpy.run_path(f, init_globals=dict(CONN=CONN, SERVER=SERVER))
        id = os.path.basename(f)[:-3]
        if ids and id not in ids: continue
        d = V + '/seeded/' + id; fresh(); r = W + '/repo'
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        for path, old, new in g['EDITS']:
            s = open(r + '/' + path).read()
            assert s.count(old) == 1, (id, path, s.count(old), old)
            open(r + '/' + path, 'w').write(s.replace(old, new))
        open(d + '/patch.diff', 'w').write(sh('git diff', r)[1])
        json.dump(dict(property=g['PROPERTY'], needs=g['NEEDS'], what_it_breaks=g['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
        shutil.copytree(KIT + '/stub', d + '/stub')
        for k in ('build.sh', 'conn_kit.h') + tuple(g.get('KIT', ())): shutil.copy(KIT + '/' + k, d)
        open(d + '/demo.cpp', 'w').write(g['DEMO'])
        open(d + '/demo.sh', 'w').write('''#!/bin/bash
# run in the repository; exit 0: the property holds in this demonstration
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
bash "$here/build.sh" "$w/demo" "$here/demo.cpp" %s || exit 99
cd "$w" && timeout 60 ./demo
''' % g['SOURCES'])
        if verify:
            rc1, o1 = sh('bash %s/demo.sh' % d, r)
            # the tests of the patched tree, by building it in place of /repo
            sh('git apply %s/patch.diff' % d, '/repo')
            try:
                bb, o = sh('bash /opt/vp/build.sh && bash /opt/vp/test.sh %s/o.json' % W)
                miss = None
                try:
                    p = json.load(open(W + '/o.json')); base = json.load(open('/opt/vp/BASELINE.json'))
                    l = base if isinstance(base, list) else list(base.values())[0]
                    miss = sorted(set(l) - set(p['passed']))
                except Exception as e: miss = [repr(e)]
            finally: sh('git checkout -- .', '/repo')
            rc0, o0 = sh('bash %s/demo.sh' % d, '/repo')
            print(id, g['PROPERTY'], 'demo patched rc=%d clean rc=%d missing tests %s' % (rc1, rc0, miss), 'GOOD' if rc1 and rc1 != 99 and not rc0 and not miss else 'BAD\n' + o1[-800:] + o0[-800:], flush=True)
    if verify:
        sh('bash /opt/vp/build.sh')
main()
