"""plant(id, property, needs, breaks, edits=[(file, old, new)], demo=<C++ body of main>): write /verif/seeded/<id> and confirm it."""
import os, subprocess, json, shutil, sys
DEMO = '''#!/bin/bash
# run with cwd /repo after the build; all output goes to a scratch directory
set -e
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
g++ -std=c++11 -I. -Isrc -w "$here/demo.cc" -o "$d/demo" -Lbuild/src -l:libsub-1.0.so -lboost_filesystem -lboost_locale -lboost_system -Wl,-rpath,"$PWD/build/src"
cd "$d"; timeout 100 ./demo
'''
HEAD = '''#include "src/subrip_reader.h"
#include "src/web_vtt_reader.h"
#include "src/ssa_reader.h"
#include "src/stl_text_reader.h"
#include "src/stl_binary_reader.h"
#include "src/stl_binary_writer.h"
#include "src/stl_binary_tables.h"
#include "src/stl_util.h"
#include "src/iso6937.h"
#include "src/reader_factory.h"
#include "src/collect.h"
#include "src/util.h"
#include "src/raw_convert.h"
#include "src/locale_convert.h"
#include "src/exceptions.h"
#include "src/subtitle.h"
#include "src/raw_subtitle.h"
#include "src/sub_time.h"
#include <iostream>
#include <fstream>
#include <sstream>
#include <cmath>
#include <list>
#include <map>
#include <vector>
using namespace std; using namespace sub;
#define CHECK(c) do { if (!(c)) { cerr << "failed: " #c "\\n"; return 1; } } while (0)
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def plant(id, prop, needs, breaks, edits, demo, pre=''):
    d = '/verif/seeded/' + id; os.makedirs(d, exist_ok=True)
    open(d + '/demo.cc', 'w').write(HEAD + pre + '\nint main () {\n' + demo + '\n\treturn 0;\n}\n')
    open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    def bad(w): print(id, 'REJECTED', w); shutil.rmtree(d); return False
    if sh('git -C /repo status --porcelain').stdout: return bad('dirty repo')
    try:
        for f, old, new in edits:
            p = '/repo/' + f; s = open(p).read()
            if s.count(old) != 1: return bad('text found %d times: %s' % (s.count(old), old[:60]))
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git -C /repo diff').stdout
        # changed lines must be original
        blame_bad = []
        fn = None; ln = 0
        for l in diff.split('\n'):
            if l.startswith('--- a/'): fn = l[6:]
            elif l.startswith('@@'): ln = int(l.split()[1].split(',')[0][1:])
            elif l.startswith('-') and not l.startswith('---'):
                b = sh('git -C /repo blame -s -L %d,%d HEAD -- %s' % (ln, ln, fn)).stdout
                if not b.split()[0].lstrip('^').startswith('1fa2160'): blame_bad.append(b.strip())
                ln += 1
            elif l.startswith(' '): ln += 1
        if blame_bad: return bad('touches own lines: %s' % blame_bad)
        open(d + '/patch.diff', 'w').write(diff)
    finally: sh('git -C /repo checkout -- .')
    # clean demo
    r = sh('bash /opt/vp/build.sh')
    r = sh('cd /repo && bash %s/demo.sh' % d)
    if r.returncode: return bad('demo fails on the unchanged tree: ' + (r.stderr + r.stdout)[-800:])
    sh('git -C /repo apply %s/patch.diff' % d)
    try:
        r = sh('bash /opt/vp/build.sh')
        if r.returncode: return bad('does not build: ' + (r.stdout + r.stderr)[-1200:])
        t = sh('cd /repo && bash %s/demo.sh' % d)
        if t.returncode == 0: return bad('demo passes with the patch')
        sh('rm -f /tmp/plant-o.json; bash /opt/vp/test.sh /tmp/plant-o.json')
        o = json.load(open('/tmp/plant-o.json')); base = json.load(open('/opt/vp/BASELINE.json'))
    finally: sh('git -C /repo checkout -- .'); sh('bash /opt/vp/build.sh')
    def passed(x):
        for k in ('passed', 'stable', 'tests', 'pass'):
            if k in x and isinstance(x[k], list): return set(map(str, x[k]))
        raise Exception('format: %s' % list(x))
    miss = passed(base) - passed(o)
    if miss: return bad('tests fail: %s' % sorted(miss)[:3])
    print(id, 'planted; demo said:', (t.stderr + t.stdout)[-160:].strip())
    return True
