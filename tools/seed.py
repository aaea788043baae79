#!/usr/bin/env python3
"""Plants bugs: reads definitions (python files with add(...) calls), applies each in a scratch copy of the repository,
checks build, stable tests and demonstration, and keeps the confirmed ones under seeded/<id>/.
usage: seed.py FILE [ID...]"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = '/tmp/seedrepo'
DEMO = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
lib=$repo/build/debug-$(uname -m)
t=$(mktemp -d) || exit 2
trap 'rm -r -- "$t"' EXIT
g++ -std=c++11 -w -O0 -I"$repo/src" "$here/demo.cpp" -o "$t/demo" -L"$lib" -ldiffpy -lboost_serialization \\
    -Wl,-rpath,"$lib" || exit 2
cd "$t" && timeout 120 ./demo
'''
PRE = '''#include <diffpy/serialization.hpp>
#include <boost/make_shared.hpp>
#include <cassert>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <sys/stat.h>
#include <unistd.h>
#include <sstream>
#include <stdexcept>
#define CHECK(x) do { if (!(x)) { std::fprintf(stderr, "failed: %s (line %d)\\n", #x, __LINE__); std::exit(1); } } while (0)
'''
defs = {}


def add(sid, prop, edits, needs, breaks, demo, inc=()):
    defs[sid] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, inc=inc)


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def fresh():
    if not os.path.exists(S):
        sh('cp -a /repo ' + S)
    sh('git -C %s checkout -q -- . && git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD' % (S, S, S))


def build():
    env = dict(os.environ, HOME='/root', LANG='C.UTF-8', PYTHONDONTWRITEBYTECODE='1')
    return sh('/usr/bin/python3 /opt/vp/mkversion.py %s && /opt/scons/bin/scons -Q --max-drift=-1 -j8 build=debug '
              'enable_objcryst=true lib alltests' % S, cwd=S, env=env)


def tests():
    res = S + '/build/res.txt'
    open(res, 'w').close()
    sh('/usr/bin/python3 /opt/vp/runtests.py %s/build/debug-x86_64/tests/alltests %s' % (S, res), cwd=S + '/src/tests')
    base = json.load(open('/opt/vp/BASELINE.json'))
    out = '/tmp/seed_out.json'
    sh('/usr/bin/python3 /opt/vp/results.py %s lines:%s' % (out, res))
    got = json.load(open(out))
    return base, got


def failed():
    base, got = tests()
    b = set(base.get('passed') or base.get('pass') or base.get('stable') or [])
    g = set(got.get('passed') or got.get('pass') or [])
    return len(b), sorted(b - g)


def main():
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], 'exec'), globals())
    ids = sys.argv[2:] or list(defs)
    for sid in ids:
        d = defs[sid]
        fresh()
        for f, old, new in d['edits']:
            p = S + '/src/diffpy/' + f
            s = open(p).read()
            if s.count(old) != 1:
                print(sid, 'EDIT NOT UNIQUE', f, s.count(old), repr(old[:60]))
                break
            open(p, 'w').write(s.replace(old, new))
        else:
            r = build()
            if r.returncode:
                print(sid, 'BUILD FAILED', r.stdout[-1500:], r.stderr[-1500:])
                continue
            n, bad = failed()
            if bad or not n:
                print(sid, 'TESTS FAIL', n, bad[:5])
                continue
            dst = V + '/seeded/' + sid
            os.makedirs(dst, exist_ok=True)
            incs = ''.join('#include <diffpy/%s>\n' % i for i in d['inc'])
            open(dst + '/demo.cpp', 'w').write(PRE + incs + 'using namespace diffpy::srreal;\nusing namespace std;\n' + d['demo'].strip() + '\n')
            open(dst + '/demo.sh', 'w').write(d.get('sh', DEMO))
            os.chmod(dst + '/demo.sh', 0o755)
            r1 = sh('bash %s/demo.sh' % dst, cwd=S)
            r0 = sh('bash %s/demo.sh' % dst, cwd='/repo')
            good = r0.returncode == 0 and r1.returncode not in (0, 2)
            diff = sh('git -C %s diff' % S).stdout
            open(dst + '/patch.diff', 'w').write(diff)
            json.dump({'property': d['prop'], 'needs': d['needs'], 'what_it_breaks': d['breaks']}, open(dst + '/meta.json', 'w'), indent=1)
            if not good:
                print(sid, 'DEMO base rc', r0.returncode, r0.stderr[-1200:], '| patched rc', r1.returncode, r1.stderr[-1200:])
                os.makedirs('/tmp/seedbad', exist_ok=True)
                shutil.rmtree('/tmp/seedbad/' + sid, ignore_errors=True)
                shutil.move(dst, '/tmp/seedbad/' + sid)
                continue
            # does the check of the property see it
            r = sh('python3 %s/check.py %s' % (V, d['prop']), env=dict(os.environ, DFA_REPO=S)) if \
                os.path.exists(V + '/rules/%s.py' % d['prop'].lower()) else None
            print(sid, 'OK', 'check rc %s %s' % (r.returncode, r.stdout.splitlines()[:1]) if r else 'no check yet', '|', r1.stderr.strip()[-100:])
    fresh()


main()
