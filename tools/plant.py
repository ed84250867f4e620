#!/usr/bin/env python3
"""Development tool: plant.py [ID ...] makes /verif/seeded/<id>/ from tools/bugs.py, confirms each bug in a scratch copy
(builds, passes the tests, its demonstration passes without and fails with it) and runs the property's check on the copy."""
import json, os, re, shutil, subprocess, sys, tempfile
import bugs

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = 'core/src/main/cpp/'
DEMO_SH = '''#!/bin/bash
# exit 0: the property holds in this scenario; run with the repository as working directory
H=$(cd "$(dirname "$0")" && pwd)
R=$PWD/core/src/main/cpp
T=$(mktemp -d) || exit 1
trap 'rm -rf "$T"' EXIT
g++ -std=gnu++14 -O1 -w -include cstdint -include iostream -include limits -include algorithm \\
  -I"$R" -I"$R/algorithm" -I"$R/interfaces" -I"$R/interfaces/vgram_builders" "$H/demo.cc" \\
  "$R"/algorithm/int_dict.cc "$R"/algorithm/int_dict_p.cc "$R"/algorithm/stat_dict_p.cc "$R"/algorithm/fast_random.cc \\
  "$R"/algorithm/int_vgram_builder_p.cc %s-o "$T/demo" || exit 1
cd "$T" || exit 1
timeout 200 "$T/demo" > "$T/log" 2>&1
rc=$?
grep -v "^Size\\|iteration\\|recompute" "$T/log" | tail -5
exit $rc
'''
IFACE = '"$R"/interfaces/*.cc "$R"/interfaces/tokenizers/*.cc "$R"/interfaces/vgram_builders/*.cc '
PRELUDE = '''#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <set>
#include <map>
#include <numeric>
#include <string>
#include <vector>
#include "algorithm/int_dict_p.h"
#include "algorithm/stat_dict_p.h"
#include "algorithm/int_vgram_builder_p.h"
%s
typedef std::vector<IntSeq> Seqs;
#define CHECK(c) do { if (!(c)) { printf("FAILED line %%d: %%s\\n", __LINE__, #c); return 1; } } while (0)
static unsigned rnd_state = 12345;
static int rnd(int n) { rnd_state = rnd_state * 1103515245u + 12345u; return (int) ((rnd_state >> 16) %% n); }
'''
IFH = '''#include "interfaces/loader.h"
#include "interfaces/saver.h"
using namespace vgram_core;'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def main():
    want = sys.argv[1:]
    nocheck = '-n' in want
    want = [w for w in want if w != '-n']
    root = '/tmp/bugs'
    os.makedirs(root, exist_ok=True)
    for b in bugs.BUGS:
        if want and b['id'] not in want and b['property'] not in want:
            continue
        cp = os.path.join(root, b['id'])
        shutil.rmtree(cp, ignore_errors=True)
        sh('cp -a /repo %s && rm -rf %s/_build' % (cp, cp))
        notes = []
        for f, old, new in b['edits']:
            p = os.path.join(cp, SRC, f)
            t = open(p).read()
            if t.count(old) != 1:
                notes.append('EDIT %s occurs %d times in %s' % (old[:40], t.count(old), f))
                continue
            open(p, 'w').write(t.replace(old, new))
        diff = sh('git -C %s diff' % cp).stdout
        # changed lines must be original ones
        mine = orig = 0
        for f in {e[0] for e in b['edits']}:
            blame = sh('git -C /repo blame -s HEAD -- %s' % (SRC + f)).stdout.splitlines()
            for m in re.finditer(r'^@@ -(\d+)', sh('git -C %s diff -U0 -- %s' % (cp, SRC + f)).stdout, re.M):
                pass
            cur = 0
            for l in sh('git -C %s diff -U0 -- %s' % (cp, SRC + f)).stdout.splitlines():
                m = re.match(r'@@ -(\d+)', l)
                if m:
                    cur = int(m.group(1))
                elif l.startswith('-') and not l.startswith('---'):
                    if blame[cur - 1].startswith('^'):
                        orig += 1
                    else:
                        mine += 1
                    cur += 1
        out = os.path.join(VERIF, 'seeded', b['id'])
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        iface = b.get('iface', False)
        open(os.path.join(out, 'demo.cc'), 'w').write(PRELUDE % (IFH if iface else '') + b['demo'].strip('\n') + '\n')
        open(os.path.join(out, 'demo.sh'), 'w').write(DEMO_SH % (IFACE if iface else ''))
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        d0 = sh('bash %s/demo.sh' % out, cwd='/repo')
        d1 = sh('bash %s/demo.sh' % out, cwd=cp)
        # tests
        bd = cp + '/_b'
        os.makedirs(bd + '/cm')
        t = open('/opt/vp/cmake/CMakeLists.txt').read().replace('/repo', cp)
        open(bd + '/cm/CMakeLists.txt', 'w').write(t)
        r = sh('export CC=gcc CXX=g++; cmake -S %s/cm -B %s/o -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_POLICY_VERSION_MINIMUM=3.5 '
               '"-DCMAKE_CXX_FLAGS=-w -include cstdint -include iostream -include limits -include algorithm" && ninja -C %s/o -j8'
               % (bd, bd, bd))
        failed = [] if r.returncode == 0 else ['build ' + (r.stdout + r.stderr)[-300:]]
        for t in json.load(open('/opt/vp/BASELINE.json'))['stable'] if not failed else []:
            prog = 'stat_dict_test' if t.startswith('StatDict') else 'int_vgram_builder_test'
            r = sh('timeout 100 %s/o/%s --gtest_filter=%s' % (bd, prog, t), cwd=bd)
            if r.returncode != 0 or '[  PASSED  ] 1 test' not in r.stdout:
                failed.append(t)
        tests = 'tests ok' if not failed else 'TESTS FAIL ' + str(failed)
        c = ''
        if not nocheck:
            r = sh('python3 %s/tools/check.py %s' % (VERIF, b['property']), env=dict(os.environ, VGRAM_REPO=cp))
            c = {0: 'MISSED', 1: 'caught', 2: 'BROKEN'}.get(r.returncode, '?') + ' ' + (r.stdout + r.stderr)[-260:].strip().replace('\n', ' | ')
        ok = d0.returncode == 0 and d1.returncode != 0 and tests == 'tests ok' and orig and not mine and not notes
        print('%-28s %s demo %d/%d lines orig=%d mine=%d %s %s\n      %s' % (
            b['id'], 'OK ' if ok else 'BAD', d0.returncode, d1.returncode, orig, mine, tests, notes, c), flush=True)
        if d0.returncode != 0 or d1.returncode == 0:
            print('   base:', d0.stdout[-400:], d0.stderr[-400:], '\n   bug:', d1.stdout[-300:])
        if not ok:
            shutil.rmtree(out, ignore_errors=True)
        sh('git -C /tmp true')
        shutil.rmtree(cp, ignore_errors=True)


main()
