#!/usr/bin/env python3
"""mkseed.py FILE.py: plants the bugs described in FILE.py (list SEEDS of dicts) after confirming each one:
applies to HEAD, builds, the tests pass, the demonstration passes without and fails with the change."""
import json, os, shutil, subprocess, sys
V = '/verif'
DEMO = '''#!/bin/bash
# run in the repository; exit 0: the guarantee holds
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
clang++ -std=c++17 -O0 -w %s -D_GLIBCXX_ASSERTIONS -I"$PWD/include" -I"$D/stubs" -I/usr/include/eigen3 "$D/demo.cpp" -o "$T/demo" -lpagmo -lboost_serialization -ltbb -lpthread || exit 3
timeout 120 "$T/demo"
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    for s in ns['SEEDS']:
        if only and s['id'] not in only:
            continue
        d = '%s/seeded/%s' % (V, s['id'])
        assert sh('git -C /repo status --porcelain').stdout.strip() == b'', 'repo not clean'
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        if s.get('stubs', True):
            shutil.copytree(V + '/dcv/stubs', d + '/stubs')
        open(d + '/demo.cpp', 'w').write(s['demo'].lstrip('\n'))
        open(d + '/demo.sh', 'w').write(DEMO % s.get('flags', ''))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['what']), open(d + '/meta.json', 'w'), indent=1)
        ok = []
        r0 = sh('bash %s/demo.sh' % d, cwd='/repo')
        ok.append(r0.returncode == 0)
        for f, old, new in s['edits']:
            p = '/repo/include/dcgp/' + f
            t = open(p).read()
            assert t.count(old) == 1, (s['id'], f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        open(d + '/patch.diff', 'wb').write(sh('git -C /repo diff').stdout)
        b = sh('bash /opt/vp/build.sh')
        t = sh('bash /opt/vp/test.sh /tmp/seedtest.json')
        ok.append(b.returncode == 0 and b'0 failed' in t.stdout)
        r1 = sh('bash %s/demo.sh' % d, cwd='/repo')
        ok.append(r1.returncode not in (0, 3))
        sh('git -C /repo checkout -- .')
        sh('bash /opt/vp/build.sh')
        print(s['id'], s['property'], 'OK' if all(ok) else 'BAD', ok, r0.stdout[-300:].decode() if not ok[0] else '', t.stdout[-200:].decode() if not ok[1] else '', r1.stdout[-200:].decode(), r1.returncode, flush=True)
        if not all(ok):
            shutil.move(d, '/tmp/bad-' + s['id']) if not os.path.exists('/tmp/bad-' + s['id']) else shutil.rmtree(d)


main()
