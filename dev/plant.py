#!/usr/bin/env python3
# plant.py [-c] [-s] [ID...]: writes seeded/<id>/ from dev/plants.py and confirms each change in a scratch copy of /repo:
# the patch applies, builds, the stable tests pass, the demonstration exits 0 without it and non-zero with it.
# -c: also runs the property's check against the patched copy (SIM_REPO). -s: writes only, no confirmation.
import json, os, re, shutil, subprocess, sys, tempfile, difflib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'dev'))
from plants import PLANTS
args = sys.argv[1:]
check = '-c' in args; only = '-s' in args
ids = [a for a in args if not a.startswith('-')]
base = tempfile.mkdtemp(prefix='plant.')
stable = None
def sh(cmd, **kw): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
DEMO = '''#!/bin/bash
# run with cwd /repo after the build
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
work="$(mktemp -d)" || exit 2
trap 'rm -rf "$work"' EXIT
%s'''
CPP = '''g++ -std=c++11 -w -O1 -I"$repo" -I"$repo/src" "$here/demo.cpp" -o "$work/demo" -L"$repo/_build" -ldkim++ -Wl,-rpath,"$repo/_build" -lcrypto -lsodium -lpthread || exit 2
cd "$work"
timeout 120 ./demo
'''
def write(p):
    d = os.path.join(V, 'seeded', p['id']); os.makedirs(d, exist_ok=True)
    diff = ''
    files = {}
    for f, old, new in p['edits']:
        s = files.get(f) or open('/repo/' + f).read()
        if s.count(old) != 1: raise Exception('%s: %d matches in %s of %r' % (p['id'], s.count(old), f, old[:60]))
        files[f] = s.replace(old, new)
    for f, s in files.items():
        a = open('/repo/' + f).read().splitlines(True); b = s.splitlines(True)
        diff += 'diff --git a/%s b/%s\n' % (f, f) + ''.join(difflib.unified_diff(a, b, 'a/' + f, 'b/' + f))
        base_lines = sh('git -C /repo blame -s ' + f).stdout.splitlines()
        removed = [i for tag, i1, i2, j1, j2 in difflib.SequenceMatcher(None, a, b, autojunk=False).get_opcodes() if tag != 'equal' for i in range(i1, i2)]
        if not any(base_lines[i].lstrip('^').startswith('603105') for i in removed): print(p['id'], f, 'WARNING: no original line changed')
    open(d + '/patch.diff', 'w').write(diff)
    if 'code' in p:
        open(d + '/demo.cpp', 'w').write('// ' + p['breaks'] + '\n#include "h.hpp"\n' + p['code'].lstrip('\n'))
        shutil.copy(V + '/dev/seeds/h.hpp', d + '/h.hpp')
        body = p.get('sh', CPP)
        for n, t in p.get('files', {}).items(): open(d + '/' + n, 'w').write(t)
    else: body = p['sh']
    open(d + '/demo.sh', 'w').write(DEMO % body); os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': p['property'], 'needs': p['needs'], 'what_it_breaks': p['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    return d
def tool(name, copy):
    t = base + '/' + name
    open(t, 'w').write(open('/opt/vp/' + name).read().replace('/repo', copy).replace('/opt/vp/build.sh', base + '/build.sh'))
    return t
def confirm(p):
    global stable
    d = os.path.join(V, 'seeded', p['id'])
    copy = base + '/repo'
    if not os.path.exists(copy):
        sh('cp -a /repo ' + copy); shutil.rmtree(copy + '/_build', ignore_errors=True); sh('git -C %s checkout -q -- .' % copy)
        tool('build.sh', copy); tool('test.sh', copy)
        r = sh('bash %s/build.sh' % base)
        if r.returncode: raise Exception('clean build: ' + r.stdout[-2000:])
        stable = json.load(open('/opt/vp/BASELINE.json'))
    w = base + '/elsewhere'; shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    for f in os.listdir(d):
        if not f.endswith('.diff') and f != 'meta.json': shutil.copy(d + '/' + f, w)
    out = []
    r = sh('bash %s/build.sh' % base, cwd=copy)
    r = sh('timeout 300 bash %s/demo.sh' % w, cwd=copy)
    if r.returncode: out.append('DEMO FAILS ON CLEAN %d: %s' % (r.returncode, r.stdout[-1500:]))
    r = sh('git -C %s apply %s/patch.diff' % (copy, d))
    if r.returncode: return ['does not apply: ' + r.stdout]
    try:
        r = sh('bash %s/build.sh' % base, cwd=copy)
        if r.returncode: return out + ['does not build: ' + r.stdout[-2000:]]
        r = sh('bash %s/test.sh %s/out.json' % (base, base), cwd=copy)
        res = json.load(open(base + '/out.json'))
        names = stable.get('stable') or stable.get('passed') or stable
        bad = [n for n in names if n not in res['passed']]
        if bad: out.append('TESTS FAIL: %s' % bad)
        r = sh('timeout 300 bash %s/demo.sh' % w, cwd=copy)
        if r.returncode == 0: out.append('DEMO PASSES WITH THE CHANGE: ' + r.stdout[-500:])
        else: print('   demo:', r.returncode, r.stdout.strip()[-300:])
        if check:
            import time
            t = time.time()
            env = dict(os.environ, SIM_REPO=copy, VERIF_SEED='1', VERIF_TIER='quick')
            r = sh('timeout 900 %s/run_check.sh %s' % (V, p['property']), env=env)
            v = [l for l in r.stdout.splitlines() if 'VIOLATION' in l or 'violat' in l]
            print('   check %s: rc=%d %.0fs %s' % (p['property'], r.returncode, time.time() - t, (v or [r.stdout.strip()[-300:]])[0][:300]))
            if r.returncode != 1 or not any(l.startswith('VIOLATION property=%s ' % p['property']) for l in r.stdout.splitlines()): out.append('MISSED')
            cf = V + '/dev/caught.json'; c = json.load(open(cf)) if os.path.exists(cf) else {}
            k = re.search(r'violation class ([^,]*)', r.stdout)
            c[p['id']] = k.group(1) if r.returncode == 1 and k else 'missed'
            json.dump(c, open(cf, 'w'), indent=0, sort_keys=True); open(cf, 'a').write('\n')
    finally:
        sh('git -C %s checkout -q -- .' % copy)
        if sh('git -C %s status --short' % copy).stdout.strip(): out.append('copy dirty')
    return out
try:
    for p in PLANTS:
        if ids and p['id'] not in ids and p['property'] not in ids: continue
        try: write(p)
        except Exception as e: print(p['id'], 'ERROR', e); continue
        if only: continue
        print(p['id'], flush=True)
        o = confirm(p)
        print('  ', 'ok' if not o else o, flush=True)
finally:
    shutil.rmtree(base, ignore_errors=True)
