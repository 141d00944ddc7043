#!/usr/bin/env python3
"""Makes and tries planted bugs (seeded/<id>); a development tool, no check uses it.

seed.py make <spec.py>   spec.py sets ID, PROP, EDITS=[(file, old, new)], NEEDS, BREAKS and FUEL (script) + EXPECT (stdout), or DEMO (text of demo.sh),
                         FILES={name: text}; builds, tests, runs the demo on both trees, runs the check, writes seeded/<id>
seed.py try [id...]      applies each seed to /repo and runs its check (CHECK=1 also on all other properties), reports caught or not"""
import sys, os, json, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'seeded')
I = 'CppLisp/CppLispInterpreter/'


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def build():
    r = sh('bash /opt/vp/build.sh')
    return r.returncode == 0, r.stdout[-1500:]


def tests():
    sh('bash /opt/vp/test.sh /tmp/seed.o.json')
    b = json.load(open('/opt/vp/BASELINE.json'))
    o = json.load(open('/tmp/seed.o.json'))
    return [x for x in b['stable'] if x not in set(o['passed'])]


def clean():
    sh('git -C /repo checkout -- .')


def demo(d):
    return sh('cd /repo && timeout 280 bash %s/demo.sh' % d)


SCRIPT = '''#!/bin/bash
# runs a script with the interpreter and compares what it prints
D=$(mktemp -d) || exit 3
trap 'rm -rf "$D"' EXIT
cp "$(dirname "$0")/demo.fuel" "$D/demo.fuel"
out=$(timeout 60 ./_build/cpp/fuel "$D/demo.fuel" 2>&1)
rc=$?
[ $rc = 0 ] || { echo "exit code $rc: $out"; exit 1; }
diff <(printf '%s\\n' "$out") "$(dirname "$0")/expected.txt"
'''


def make(spec):
    g = {}
    exec(open(spec).read(), g)
    clean()
    d = os.path.join(S, g['ID'])
    os.makedirs(d, exist_ok=True)
    files = dict(g.get('FILES', {}))
    if 'FUEL' in g:
        files['demo.fuel'] = g['FUEL'].lstrip('\n')
        files['expected.txt'] = g['EXPECT'].lstrip('\n')
        files['demo.sh'] = SCRIPT
    else:
        files['demo.sh'] = g['DEMO'].lstrip('\n')
    for n, t in files.items():
        open(os.path.join(d, n), 'w').write(t)
    ok, o = build()
    assert ok, o
    r = demo(d)
    print('unchanged: demo rc', r.returncode, r.stdout[-600:] if r.returncode else '')
    for f, old, new in g['EDITS']:
        p = '/repo/' + (f if '/' in f else I + f)
        t = open(p, newline='').read()
        assert t.count(old) == 1, (f, t.count(old), old)
        open(p, 'w', newline='').write(t.replace(old, new))
    try:
        ok, o = build()
        if not ok:
            print('BUILD FAILED', o)
            return
        m = tests()
        r2 = demo(d)
        print('patched: demo rc', r2.returncode, '| tests broken:', m[:8])
        print(r2.stdout[-400:])
        open(os.path.join(d, 'patch.diff'), 'w').write(sh('git -C /repo diff').stdout)
        json.dump({'property': g['PROP'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        good = r.returncode == 0 and r2.returncode != 0 and not m
        print('SEED', g['ID'], 'OK' if good else '*** NOT VALID ***')
        c = sh('cd %s && python3 sa/check.py %s' % (V, g['PROP']))
        print('check rc', c.returncode, c.stdout[-500:])
    finally:
        clean()
        build()


def tryall(ids):
    from concurrent.futures import ThreadPoolExecutor
    for i in ids or sorted(os.listdir(S)):
        d = os.path.join(S, i)
        m = json.load(open(d + '/meta.json'))
        r = sh('git -C /repo apply %s/patch.diff' % d)
        if r.returncode:
            print(i, 'DOES NOT APPLY', r.stdout[-300:])
            continue
        c = sh('cd %s && python3 sa/check.py %s' % (V, m['property']))
        print('%-22s %s %s' % (i, m['property'], 'caught' if c.returncode == 1 else 'MISSED rc %d' % c.returncode), flush=True)
        clean()


if __name__ == '__main__':
    if sys.argv[1] == 'make':
        make(sys.argv[2])
    else:
        tryall(sys.argv[2:])
