"""Make (and confirm) a planted bug: python3-vt tools/seed.py DEF.py ID...   DEF holds BUGS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo, san=False)]"""
import os, sys, subprocess, json, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = '/repo'
SH = '''#!/bin/bash
# exit 0 when the behaviour is right
d="$(cd "$(dirname "$0")" && pwd)"
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++11 -O1 -g %s -I"$PWD/src" "$d/demo.cpp" "$PWD"/src/*.cpp -o "$t/demo" || exit 3
timeout 60 "$t/demo"
'''
PRE = '''#include <qlibs.h>
#include <cstdio>
#include <cstring>
#include <cstdint>
#include <cmath>
using namespace qlibs;
static int bad = 0;
static void expect( bool ok, const char *what ) { if ( !ok ) { printf( "FAIL: %s\\n", what ); bad = 1; } }
static bool near( double a, double b, double tol = 1e-3 ) { return std::fabs( a - b ) <= tol*( 1.0 + std::fabs( b ) ); }
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    g = {}; exec(open(sys.argv[1]).read(), g)
    want = sys.argv[2:]
    for b in g['BUGS']:
        if want and b['id'] not in want: continue
        d = '%s/seeded/%s' % (V, b['id'])
        if os.path.exists(d) and not want: continue
        assert sh('git -C %s status --porcelain --untracked-files=no' % R).stdout == ''
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        demo = b['demo'] if '#include <qlibs.h>' in b['demo'] else PRE + b['demo']
        open(d + '/demo.cpp', 'w').write(demo)
        open(d + '/demo.sh', 'w').write(SH % ('-fsanitize=address,undefined -fno-sanitize-recover=all' if b.get('san') else '')); os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
        ok = True
        r0 = sh('bash %s/demo.sh' % d, cwd=R)
        if r0.returncode: print(b['id'], 'demo fails on unchanged tree', r0.stdout[-600:]); ok = False
        try:
            for f, o, n in b['edits']:
                s = open('%s/%s' % (R, f)).read()
                assert s.count(o) == 1, (b['id'], f, o, s.count(o))
                open('%s/%s' % (R, f), 'w').write(s.replace(o, n))
            open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % R).stdout)
            t = sh('bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/seed_o.json')
            res = json.load(open('/tmp/seed_o.json')) if t.returncode == 0 else None
            if not res or res['failed']: print(b['id'], 'build/test', t.stdout[-500:], res); ok = False
            r1 = sh('bash %s/demo.sh' % d, cwd=R)
            if r1.returncode == 0 or 'error:' in r1.stdout: print(b['id'], 'demo passes with the patch / broken', r1.stdout[-500:]); ok = False
            c = sh('python3-vt engine/check.py %s --tier quick' % b['property'], cwd=V) if ok else None
        finally:
            sh('git -C %s checkout -- .' % R)
        if ok:
            cf = V + '/tools/caught.json'; cj = json.load(open(cf)) if os.path.exists(cf) else {}
            cj[b['id']] = {1: 'yes: ' + c.stdout.strip().split('\n')[-1].split('/')[-1][:60], 0: 'no'}.get(c.returncode, 'no verdict'); json.dump(cj, open(cf, 'w'), indent=1, sort_keys=True)
            print('%-28s %s caught=%s  %s' % (b['id'], b['property'], c.returncode == 1, c.stdout.strip().split('\n')[-1][:150])); sys.stdout.flush()
        else: shutil.rmtree(d)
    sh('bash /opt/vp/build.sh')
main()
