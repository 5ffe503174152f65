#!/usr/bin/env python3
"""Plants bugs: makes /verif/seeded/<id> from a description and confirms it in scratch copies of /repo.
usage: mkseed.py <file with descriptions> [id ...]     (descriptions: SEEDS = {id: dict(prop, edits, needs, breaks, demo)})
       mkseed.py --check [id ...]                      runs the checks against the planted bugs"""
import importlib.util, json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')
DEMO = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'find "$T" -mindepth 1 -delete; rmdir "$T"' EXIT
%s -I. "$D/demo.cpp" -o "$T/demo" || exit 3
"$T/demo"
'''
CC = 'clang++ -std=c++20 -stdlib=libc++ -O0 -g -fsanitize=address -w'
ENV = dict(os.environ, ASAN_OPTIONS='alloc_dealloc_mismatch=0:allocator_may_return_null=1')
PRE = '''#include "zpp_bits.h"
#include <cstdio>
#include <cstdlib>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <string>
#include <vector>
#include <list>
#include <deque>
#include <memory>
#include <optional>
#include <variant>
#include <bitset>
#include <array>
#include <span>
#include <string_view>
#define CHECK(x) do { if (!(x)) { std::printf("failed: %s (line %d)\\n", #x, __LINE__); return 1; } } while (false)
using namespace zpp::bits;
'''
def run(cmd, cwd=None, timeout=600): return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout)

def make(i, s, head):
    d = os.path.join(SEEDED, i)
    src = head
    for e in s['edits']:
        old, new = e[0], e[1]; n = e[2] if len(e) > 2 else 1
        assert src.count(old) == n, (i, src.count(old), old)
        src = src.replace(old, new)
    w = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    try:
        repo = os.path.join(w, 'repo'); shutil.copytree('/repo', repo, symlinks=True)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'demo.cpp'), 'w').write(PRE + s.get('pre', '') + ('int main()\n{\n' + s['demo'] + '\n    return 0;\n}\n' if 'demo' in s else ''))
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO % (CC + ' ' + s.get('flags', '')).strip())
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        r0 = run(['bash', os.path.join(d, 'demo.sh')], repo)
        open(os.path.join(repo, 'zpp_bits.h'), 'w').write(src)
        open(os.path.join(d, 'patch.diff'), 'w').write(run(['git', 'diff'], repo).stdout)
        r1 = run(['bash', os.path.join(d, 'demo.sh')], repo)
        e = dict(ENV, CCC_OVERRIDE_OPTIONS='# x-Werror')
        b = subprocess.run(['make', '-C', 'test', '-f', 'zpp.mk', '-j8', 'mode=debug', 'ZPP_CC=/usr/bin/clang-18', 'ZPP_CXX=/usr/bin/clang++-18',
                            'ZPP_OUTPUT_DIRECTORY_ROOT=../_b/out', 'ZPP_INTERMEDIATE_DIRECTORY_ROOT=../_b/obj', 'ZPP_COMPILE_COMMANDS_JSON=../_b/c.json'],
                           cwd=repo, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        if b.returncode: print(i, 'DOES NOT BUILD', b.stdout[-1500:]); ok = False
        else:
            t = run([os.path.join(repo, '_b/out/debug/default/output')], os.path.join(repo, 'test'))
            fails = sorted(set(re.findall(r'\[  FAILED  \] ([\w.]+)', t.stdout)))
            ok = r0.returncode == 0 and r1.returncode not in (0, 3) and t.returncode == 0
            print(i, 'GOOD' if ok else 'BAD', 'demo', r0.returncode, r1.returncode, 'tests', t.returncode, fails[:8])
            if r0.returncode: print(r0.stdout[-1500:])
            if r1.returncode in (0, 3): print(r1.stdout[-1500:])
        if not ok: shutil.rmtree(d)
    finally:
        shutil.rmtree(w)

def check(ids):
    for i in ids:
        d = os.path.join(SEEDED, i); p = json.load(open(os.path.join(d, 'meta.json')))['property']
        w = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
        try:
            shutil.copy('/repo/zpp_bits.h', w)
            r = run(['git', 'apply', '--directory', '', os.path.join(d, 'patch.diff')], w)
            assert r.returncode == 0, r.stdout
            e = dict(os.environ, VF_REPO=w, VERIF_SEED=os.environ.get('VERIF_SEED', '1'))
            r = subprocess.run(['python3', os.path.join(HERE, 'vf.py'), 'check', p], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
            ls = r.stdout.splitlines()
            print(i, p, 'CAUGHT' if r.returncode == 1 else f'MISSED ({r.returncode})', (ls[-1] if ls else '')[:120], [l.strip()[:90] for l in ls if l.startswith('  ')][:2], flush=True)
            if r.returncode not in (0, 1): print(r.stdout[-1500:])
        finally:
            shutil.rmtree(w)

if sys.argv[1] == '--check':
    check(sys.argv[2:] or sorted(os.listdir(SEEDED)))
else:
    spec = importlib.util.spec_from_file_location('seeds', sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    head = open('/repo/zpp_bits.h').read()
    for i, s in m.SEEDS.items():
        if not sys.argv[2:] or i in sys.argv[2:]: make(i, s, head)
