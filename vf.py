#!/usr/bin/env python3
"""Checks zpp_bits against the TLA+ specification in spec/.
usage: vf.py check <property> | vf.py replay <file> | vf.py list"""
import concurrent.futures as cf
import glob, hashlib, json, os, random, re, shutil, resource, subprocess, sys, threading, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'harness'))
REPO = os.environ.get('VF_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
SPEC = os.path.join(HERE, 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar'
CXX = ['clang++', '-std=c++20', '-stdlib=libc++', '-O0', '-g1', '-fsanitize=address,undefined',
       '-fno-sanitize-recover=undefined', '-fno-sanitize=alignment,bool', '-w', '-Wno-everything']
ENV = dict(os.environ, ASAN_OPTIONS='alloc_dealloc_mismatch=0:detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:max_allocation_size_mb=512:malloc_context_size=2',
           UBSAN_OPTIONS='abort_on_error=1')

class ModelError(Exception): pass

def sh(cmd, timeout=600, env=None, cwd=None, limits=None):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                          env=env or ENV, cwd=cwd, text=True, errors='replace',
                          preexec_fn=(lambda: [resource.setrlimit(k, (v, v)) for k, v in limits]) if limits else None)
EVALUATOR = [(resource.RLIMIT_AS, 3 << 30), (resource.RLIMIT_CPU, 180)]
COMPILER = [(resource.RLIMIT_AS, 5 << 30), (resource.RLIMIT_CPU, 240)]
ALONE = threading.Lock()

# ------------------------------------------------------------------- build
def repo_hash():
    h = hashlib.sha256()
    h.update(open(os.path.join(REPO, 'zpp_bits.h'), 'rb').read())
    for f in ('h.hpp', 'fn.hpp', 'ce.hpp', 'rpc.hpp', 'ovf.hpp', 'reflect.hpp', 'results.hpp'):
        f = os.path.join(HERE, 'harness', f)
        if os.path.exists(f): h.update(open(f, 'rb').read())
    return h.hexdigest()

def compile_tu(name, code, flags=(), work=None, cxx=None, limits=None):
    """returns (executable, None) or (None, compiler output)"""
    os.makedirs(BUILD, exist_ok=True)
    cxx = cxx or CXX
    key = hashlib.sha256((repo_hash() + code + ' '.join(cxx + list(flags))).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, f'{name}-{key}')
    if os.path.exists(exe): return exe, None
    src = exe + '.cpp'
    open(src, 'w').write(code)
    cmd = cxx + list(flags) + ['-I' + REPO, '-I' + os.path.join(HERE, 'harness'), src, '-o', exe + '.tmp']
    r = sh(cmd, 850, limits=limits or COMPILER)
    if r.returncode:
        died = ('unable to execute command', 'due to signal', 'out of memory', 'bad_alloc', 'CPU time limit', 'CPU limit', 'Killed')
        if any(x in r.stdout for x in died):
            if 'CPU' not in r.stdout and not limits:
                with ALONE: r = sh(cmd, 600, limits=COMPILER)
            if r.returncode and any(x in r.stdout for x in died):
                return None, 'the compiler needs far more memory or time than it should\n' + r.stdout[-3000:]
    if r.returncode:
        if ' error: ' not in r.stdout: raise ModelError('compiler failed: ' + r.stdout[-2000:])
        ls = [l[:400] for l in r.stdout.splitlines()]
        return None, '\n'.join(['\n'.join(ls[i:i + 3]) for i, l in enumerate(ls) if ' error: ' in l] + ls)[:16000]
    os.replace(exe + '.tmp', exe)
    return exe, None

def prune_build():
    """keep the cache small"""
    try:
        fs = sorted((os.path.getmtime(p), p) for p in
                    (os.path.join(BUILD, f) for f in os.listdir(BUILD)) if os.path.isfile(p))
    except FileNotFoundError:
        return
    total = sum(os.path.getsize(p) for _, p in fs)
    for _, p in fs:
        if total < 3_000_000_000: break
        total -= os.path.getsize(p); os.remove(p)

def tu_code(calls, configs, base, extra=''):
    """calls: list of Call; configs: list of (global index, Config)"""
    decls, seen = [], set()
    for c in calls:
        for d in c.decls():
            if d not in seen:
                seen.add(d); decls.append(d)
    o = [f'#define VF_BASE {base}', '#include "h.hpp"', extra, 'namespace {']
    o += decls
    o += ['}']
    o += [c.code(f'C{base + i}') for i, c in enumerate(calls)]
    o.append('using Calls = vf::table<std::tuple<' + ', '.join(f'C{base + i}' for i in range(len(calls))) + '>>;')
    o = [x.replace('vf::table<std::tuple<', 'std::tuple<').replace('>>;', '>;') if x.startswith('using Calls') else x for x in o]
    for gi, c in configs:
        o.append(f'static void run{gi}(const vf::J & s, vf::ctx_t & cx, bool & first) {{\n    {c.code}\n}}')
    o.append('static const vf::runner_entry runners[] = {' +
             ', '.join(f'{{{gi}, run{gi}}}' for gi, _ in configs) + ', {-1, nullptr}};')
    o.append('int main(int argc, char ** argv) { return vf::run_main(argc, argv, runners); }')
    return '\n'.join(o) + '\n'

# --------------------------------------------------------------------- TLC
def tlc(module, cfg, env, work, workers=8, heap='6g', timeout=800, args=()):
    meta = os.path.join(work, 'tlc-' + os.path.basename(cfg) + str(time.time_ns()))
    cmd = ['java', f'-Xmx{heap}', '-Xss64m', '-XX:+UseParallelGC', '-cp',
           JAR + ':' + ':'.join(os.path.join(os.path.dirname(JAR), j) for j in os.listdir(os.path.dirname(JAR)) if j.endswith('.jar')),
           'tlc2.TLC', '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE', '-fp', '3',
           '-config', cfg, *args, module]
    r = sh(cmd, timeout, dict(os.environ, **env), SPEC)
    shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout

REJ = re.compile(r'<<\s*"REJECT",\s*(\d+),\s*(\d+),\s*(\{.*?\})\s*>>', re.S)
STATES = re.compile(r'(\d+) states generated, (\d+) distinct states found')
def validate(trace, types, work, tag='t', module='Trace'):
    """-> (rejects [(id, event, clauses)], states, distinct)"""
    rc, out = tlc(module + '.tla', module + '.cfg', {'VF_TRACE': trace, 'VF_TYPES': types}, work)
    m = STATES.findall(out)
    rej = {}
    for a, b, c in REJ.findall(out):
        rej.setdefault(int(a), (int(a), int(b), re.sub(r'\s+', ' ', c)))
    if (rc != 0 or not m) and 'when TLC was evaluating' in out and 'Overflow' not in out and re.search(r'sid = \d+', out):
        # what was observed has no meaning in the specification: it is no behaviour
        n, l = [int(x) for x in re.findall(r'sid = (\d+)', out)][-1], [int(x) for x in re.findall(r'/\\ l = (\d+)', out)]
        for k, x in enumerate(open(trace), 1):
            if k == n: i = int(re.match(r'{"id":(\d+)', x)[1]); return sorted(rej.values()) + [(i, l[-1] + 1 if l else 1, '{"not-a-behaviour"}')], 0, 0
    if rc != 0 or not m:
        ls = [l for l in out.splitlines() if l.strip() and not re.match(r'[0-9]+\. Line', l)]; raise ModelError('TLC failed:\n' + '\n'.join(l[:600] for l in ls)[-4000:])
    return sorted(rej.values()), int(m[-1][0]), int(m[-1][1])

def design(name, work, timeout=800, args=(), env=None):
    """exhaustive check of a small design model; returns (states, distinct)"""
    rc, out = tlc(name + '.tla', name + '.cfg', env or {}, work, workers=4, heap='3g', timeout=timeout, args=args)
    m = STATES.findall(out)
    if rc != 0 or not m or 'No error has been found' not in out:
        raise ModelError(f'design model {name}:\n' + out[-6000:])
    return int(m[-1][0]), int(m[-1][1])

PATH = re.compile(r'<<\s*"PATH",\s*(\d+),\s*<<([\d,\s]*)>>,(.*)')
def explore(module, data, work, timeout=800, heap='6g'):
    """explore a model exhaustively; returns (paths per world, states, distinct):
    one path for every call in every state of the archive; a path that another one extends is left out"""
    f = os.path.join(work, module + '.json')
    json.dump(data, open(f, 'w'))
    rc, out = tlc(module + '.tla', module + '.cfg', {'VF_TYPES': f}, work, heap=heap, timeout=timeout)
    m = STATES.findall(out)
    if rc != 0 or not m or 'No error has been found' not in out:
        raise ModelError(f'model {module}:\n' + '\n'.join(l[:600] for l in out.splitlines() if '"PATH"' not in l)[-5000:])
    paths, seen = {}, set()
    lines = re.sub(r'\n(?!<<|[A-Z])', ' ', out)      # long tuples are printed on several lines
    for w, p, at in PATH.findall(lines):
        p = tuple(int(x) - 1 for x in p.split(',') if x.strip())
        at = re.sub(r'\s', '', at)
        k = (w, p) if at == '<<>>>>' else (w, at, p[-1])
        if k in seen: continue
        seen.add(k)
        paths.setdefault(int(w) - 1, set()).add(p)
    for w, ps in paths.items():
        inner = {p[:-1] for p in ps}            # every transition's path is printed, so one step less is enough
        paths[w] = sorted(p for p in ps if p not in inner)
    return paths, int(m[-1][0]), int(m[-1][1])

# ------------------------------------------------------------------- suites
class Suite:
    """Calls x configs, with sessions over them.  gen(rng, calls [(index, Call)], cfg) -> list of sessions"""
    def __init__(self, name, calls, configs, gen, tus=None, flags=(), cxx=None, extra='', weight=1):
        self.name, self.calls, self.configs, self.gen = name, calls, configs, gen
        self.tus, self.flags, self.cxx, self.extra = tus, flags, cxx, extra

class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.work = os.path.join(BUILD, f'work-{prop}-{os.getpid()}')
        os.makedirs(self.work, exist_ok=True)
        self.violations = []        # (what, replay path)
        self.known = []
        self.traces = []            # the parsed traces of sessions kept for the plan
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        self.assumptions = []
        self.t0 = time.time()
        for f in glob.glob(os.path.join(HERE, 'evidence', 'replay', f'{prop}-*.json')): os.remove(f)

    def replay_file(self, data):
        d = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, f'{self.prop}-{len(self.violations) + 1}.json')
        json.dump(data, open(p, 'w'), indent=1)
        return p

    def violation(self, what, data):
        if len(self.violations) < 20:
            p = self.replay_file({'property': self.prop, 'what': what, **data})
            self.violations.append((what, p))

    def known_finding(self, key, what):
        """a defect of the library seen again; only those listed in the file are no violation"""
        listed = [l for l in open(os.path.join(HERE, 'known_findings.txt')) if l.startswith(f'known: property={self.prop} key={key} ')]
        if listed: self.known.append(f'{key}: {what}')
        else: self.violation(f'{key}: {what}', {})

    def run_suites(self, suites, table=()):
        """build, run, validate"""
        import random
        calls, cfgs, tus = [], [], []       # global
        for s in suites:
            cb = len(calls)
            ci = list(range(len(cfgs), len(cfgs) + len(s.configs)))
            cfgs += s.configs
            n = min(s.tus or 8, max(1, len(s.calls)))
            # contiguous parts, so that call numbers stay base + local
            parts = [s.calls[i * len(s.calls) // n:(i + 1) * len(s.calls) // n] for i in range(n)]
            base = cb
            for k, p in enumerate(parts):
                if p: tus.append((s, k, base, p, list(zip(ci, s.configs))))
                base += len(p)
            calls += s.calls
        types = os.path.join(self.work, 'types.json')
        json.dump({'table': list(table), 'calls': [c.ds() for c in calls], 'cfgs': [c.rec for c in cfgs]},
                  open(types, 'w'))
        def one(tu):
            s, k, base, part, cf_ = tu
            code = tu_code(part, cf_, base, s.extra)
            exe, err = compile_tu(f'{self.prop}-{s.name}-{k}', code, s.flags, cxx=s.cxx)
            return exe, err
        t = time.time()
        with cf.ThreadPoolExecutor(8) as ex: built = list(ex.map(one, tus))
        self.cov['build_s'] = round(time.time() - t, 1)
        script, sid = {}, 0
        for n, ((s, k, base, part, cf_), (exe, err)) in enumerate(zip(tus, built)):
            if err is not None:
                self.violation(f'does not compile: suite {s.name} part {k}', {'compiler': err[:16000]})
                continue
            lines = []
            pairs = [(base + i, c) for i, c in enumerate(part)]
            for gi, c in cf_:
                r = random.Random(f'{self.seed}/{self.prop}/{s.name}/{k}/{gi}')
                for sess in s.gen(r, pairs, c):
                    sess['ev'] = [e for e in sess['ev'] if not (e['o'] == 'r' and not calls[e['t']].r or e['o'] == 'w' and not calls[e['t']].w)]
                    if not sess['ev']: continue
                    sess = {'id': sid, 'cfg': gi, **sess}
                    script[sid] = (n, sess); sid += 1
                    lines.append(json.dumps(sess, separators=(',', ':')))
            open(os.path.join(self.work, f's{n}.nd'), 'w').write('\n'.join(lines) + '\n')
        t = time.time()
        def go(n):
            exe, err = built[n]
            if err is not None: return ''
            return self.execute(exe, os.path.join(self.work, f's{n}.nd'), os.path.join(self.work, f't{n}.nd'))
        with cf.ThreadPoolExecutor(8) as ex: outs = list(ex.map(go, range(len(tus))))
        self.cov['run_s'] = round(time.time() - t, 1)
        trace = os.path.join(self.work, 'trace.nd')
        data = ''.join(outs)
        if not data: return
        open(trace, 'w').write(data)
        t = time.time()
        rej, st, di = validate(trace, types, self.work)
        self.cov['validate_s'] = round(time.time() - t, 1)
        lines = data.splitlines()
        self.traces = [json.loads(x) for x in lines if len(x) < 400]
        self.account(lines, st, di)
        self.cov['calls_instantiated'] = self.cov.get('calls_instantiated', 0) + sum(len(p) * len(c) for _, _, _, p, c in tus)
        for a, b, c in rej[:6]:
            n, sess = script[a]
            def judge(o, p=os.path.join(self.work, 'ct.nd')):
                open(p, 'w').write(o)
                return validate(p, types, self.work)[0]
            def more(ev):
                g = cfgs[sess['cfg']]
                return {'config': g.rec, 'config_code': g.code,
                        'call': [it.t.cpp for it in calls[ev['t']].items] if 't' in ev else None,
                        'descriptor': calls[ev['t']].ds() if 't' in ev else None}
            self.confirm(a, b, c, sess, built[n][0], judge, lines, more)

    def run_sessions(self, tus, cfgs, module, table=()):
        """tus: (name, code, sessions[, flags]); a session names its configuration, an index into cfgs"""
        types = os.path.join(self.work, f'types-{module}.json')
        json.dump({'table': list(table), 'calls': [], 'cfgs': cfgs}, open(types, 'w'))
        t = time.time()
        with cf.ThreadPoolExecutor(8) as ex:
            built = list(ex.map(lambda p: compile_tu(f'{self.prop}-{p[0]}', p[1], *p[3:4]), tus))
        self.cov['build_s'] = round(self.cov.get('build_s', 0) + time.time() - t, 1)
        script, sid = {}, 0
        for n, (tu, (exe, err)) in enumerate(zip(tus, built)):
            if err is not None:
                self.violation(f'does not compile: {tu[0]}', {'compiler': err[:16000]})
                continue
            lines = []
            for sess in tu[2]:
                sess = {'id': sid, **sess}
                script[sid] = (n, sess); sid += 1
                lines.append(json.dumps(sess, separators=(',', ':')))
            open(os.path.join(self.work, f'r{n}.nd'), 'w').write('\n'.join(lines) + '\n')
        t = time.time()
        def go(n):
            if built[n][1] is not None or not tus[n][2]: return ''
            return self.execute(built[n][0], os.path.join(self.work, f'r{n}.nd'), os.path.join(self.work, f'q{n}.nd'))
        with cf.ThreadPoolExecutor(8) as ex: data = ''.join(ex.map(go, range(len(tus))))
        self.cov['run_s'] = round(self.cov.get('run_s', 0) + time.time() - t, 1)
        if not data: return
        trace = os.path.join(self.work, f'trace-{module}.nd')
        open(trace, 'w').write(data)
        t = time.time()
        rej, st, di = validate(trace, types, self.work, module=module)
        self.cov['validate_s'] = round(self.cov.get('validate_s', 0) + time.time() - t, 1)
        lines = data.splitlines()
        self.account(lines, st, di)
        for a, b, c in rej[:6]:
            n, sess = script[a]
            def judge(o, p=os.path.join(self.work, 'ct.nd')):
                open(p, 'w').write(o)
                return validate(p, types, self.work, module=module)[0]
            self.confirm(a, b, c, sess, built[n][0], judge, lines, lambda ev: {'config': cfgs[sess['cfg']], 'program': tus[n][0]})

    def account(self, lines, st, di):
        self.cov['states'] += di; self.cov['transitions'] += st - len(lines)
        self.cov['traces_validated_against_impl'] += len(lines)
        ev = self.cov.setdefault('events', {})
        for x in lines:
            for m in re.findall(r'"o":"(\w+)"', x): ev[m] = ev.get(m, 0) + 1
            for m in re.findall(r'"er":"([\w:]+)"', x): ev['result ' + m] = ev.get('result ' + m, 0) + 1
        self.cov['sessions_distinct'] = self.cov.get('sessions_distinct', 0) + len({re.sub(r'^{"id":\d+', '', x) for x in lines})
        rr = random.Random(self.seed)
        self.cov['samples'] += [json.loads(x) for x in rr.sample(lines, min(2, len(lines))) if len(x) < 5000]

    def confirm(self, a, b, c, sess, exe, judge, lines, more):
        """run a rejected session again on its own, and report it"""
        p1, p2 = os.path.join(self.work, 'c.nd'), os.path.join(self.work, 'ct.nd')
        open(p1, 'w').write(json.dumps(sess) + '\n')
        repeats = True
        for _ in range(3):
            o = self.execute(exe, p1, p2)
            rej = judge(o)
            if rej: b, c = rej[0][1:]; break
        else:
            # it depends on what came before or on the memory's content: the recorded trace is what counts
            repeats = False
            o = next(x for x in lines if x.startswith('{"id":%d,' % a))
        tr = json.loads(o)
        self.violation(f'clauses {c} at event {b}', {**more(tr['ev'][b - 1]), 'rejected_event': b, 'clauses': c,
                       'repeats_alone': repeats, 'script': sess, 'trace': tr, 'source': exe + '.cpp'})

    def run_programs(self, progs, module='Funcs', types='{}'):
        """progs: (name, code, text of the input file); the lines they print are judged one by one"""
        tf = os.path.join(self.work, 'types.json')
        open(tf, 'w').write(types)
        t = time.time()
        with cf.ThreadPoolExecutor(8) as ex:
            built = list(ex.map(lambda p: compile_tu(f'{self.prop}-{p[0]}', p[1], *p[3:4]), progs))
        self.cov['build_s'] = round(self.cov.get('build_s', 0) + time.time() - t, 1)
        for (name, *_), (exe, err) in zip(progs, built):
            if err is not None: self.violation(f'does not compile: {name}', {'compiler': err[:16000]})
        def go(i):
            if built[i][0] is None: return []
            a, b = os.path.join(self.work, f'f{i}.in'), os.path.join(self.work, f'f{i}.nd')
            open(a, 'w').write(progs[i][2])
            r = sh([built[i][0], a, b], 600)
            ls = open(b).read().splitlines() if os.path.exists(b) else []
            if r.returncode: return ls[:-1] + [json.dumps({'f': 'crash', 'out': r.stdout[-1500:]})]
            return ls
        t = time.time()
        with cf.ThreadPoolExecutor(8) as ex: outs = list(ex.map(go, range(len(progs))))
        self.cov['run_s'] = round(self.cov.get('run_s', 0) + time.time() - t, 1)
        lines, src = [], []
        for i, ls in enumerate(outs):
            for k, l in enumerate(ls):
                lines.append('{"id":%d,' % len(lines) + l[1:]); src.append((i, k))
        if not lines: return
        trace = os.path.join(self.work, 'fn.nd')
        open(trace, 'w').write('\n'.join(lines) + '\n')
        t = time.time()
        rej, st, di = validate(trace, tf, self.work, module=module)
        self.cov['validate_s'] = round(self.cov.get('validate_s', 0) + time.time() - t, 1)
        self.cov['states'] += di; self.cov['transitions'] += st - len(lines)
        self.cov['traces_validated_against_impl'] += len(lines)
        ev = self.cov.setdefault('events', {})
        for l in lines:
            m = re.match(r'{"id":\d+,"f":"(\w+)"', l)
            if m: ev[m[1]] = ev.get(m[1], 0) + 1
        rr = random.Random(self.seed)
        self.cov['samples'] += [json.loads(x) for x in rr.sample(lines, min(3, len(lines))) if len(x) < 5000]
        again = {}
        for a, b, c in rej[:8]:
            i, k = src[a]
            if i not in again: again[i] = go(i)
            self.violation(f'clauses {c}', {'repeats': again[i][k:k + 1] == [outs[i][k]], 'program': progs[i][0], 'line': json.loads(lines[a]), 'source': built[i][0] + '.cpp'})

    def execute(self, exe, script, out):
        r = sh([exe, script, out], 600)
        if r.returncode: raise ModelError(f'executor failed ({r.returncode}): {r.stdout[-3000:]}')
        return open(out).read()

    def finish(self, level='model_checking'):
        wall = round(time.time() - self.t0, 1)
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        if not self.cov['samples']: self.cov['samples'] = ['none']
        json.dump({'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level,
                   'coverage': self.cov, 'assumptions': self.assumptions, 'wall_s': wall,
                   'violations': len(self.violations)},
                  open(os.path.join(HERE, 'evidence', self.prop + '.json'), 'w'), indent=1)
        if not os.environ.get('VF_KEEP'): shutil.rmtree(self.work, ignore_errors=True)
        for k in self.known: print(f'KNOWN-FINDING: property={self.prop} {k}')
        for w, p in self.violations: print(f'VIOLATION property={self.prop} replay={p}\n  {w}')
        print(f'{self.prop}: {"VIOLATED" if self.violations else "held"}; {self.cov["traces_validated_against_impl"]} traces, '
              f'{self.cov["states"]} states, {wall} s {({k: v for k, v in self.cov.items() if k.endswith("_s")})}')
        return 1 if self.violations else 0

def main():
    if len(sys.argv) < 2: print(__doc__); return 2
    sys.modules['vf'] = sys.modules['__main__']
    import plans
    if sys.argv[1] == 'list':
        print(' '.join(sorted(plans.PLANS))); return 0
    if sys.argv[1] == 'check':
        prop = sys.argv[2]
        tier = os.environ.get('VERIF_TIER', 'quick')
        seed = int(os.environ.get('VERIF_SEED', '1'))
        prune_build()
        run = Run(prop, tier, seed)
        try:
            plans.PLANS[prop](run)
        except Exception as e:
            if not isinstance(e, ModelError): traceback.print_exc()
            print(f'{prop}: check failed: {e}')
            if run.violations: return run.finish()
            return 2
        return run.finish()
    return 2

if __name__ == '__main__':
    sys.exit(main())
