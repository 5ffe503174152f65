"""The same sessions evaluated by the compiler and at run time."""
import concurrent.futures as cf
import json, os, re, random, time
import gen as G
from gen import grow, fixed, source

CODES = ['ok', 'range', 'nospace', 'toolarge', 'msgsize', 'notsup', 'badmsg', 'inval', 'proto', 'other']
HOW = {'reset0': 0, 'reset': 1, 'set': 2, 'add': 3, 'sub': 4}

GCCF = ['-fconstexpr-ops-limit=2000000000', '-fconstexpr-loop-limit=10000000', '-ftemplate-depth=2000']

def flat(d, v):
    k = d['k']
    if k in ('b', 'bool'): return [v]
    if k in ('u', 'var'): return list(v)
    if k == 'empty': return []
    if k == 'arr': return [y for x in v for y in flat(d['t'], x)]
    if k == 'tup': return [y for t, x in zip(d['ts'], v) for y in flat(t, x)]
    if k == 'seq': return [len(v)] + [y for x in v for y in flat(d['t'], x)]
    if k == 'opt': return [1] + flat(d['t'], v[0]) if v else [0]
    if k == 'alt': return [v[0]] + flat(d['ts'][v[0]], v[1])
    if k in ('view', 'fview'): return [v['a'], len(v['d'])] + v['d']
    if k == 'pb': return [y for f, x in zip(d['fs'], v) for y in flat(fd(f), x)]
    raise KeyError(k)
def fd(f):
    if f['k'] in ('str', 'rvar', 'renum', 'rfix', 'rmsg'): return {'k': 'seq', 't': f['t']}
    return f['t']
def unflat(d, it):
    k = d['k']
    if k in ('b', 'bool'): return next(it)
    if k in ('u', 'var'): return [next(it) for _ in range(d['n'])]
    if k == 'empty': return []
    if k == 'arr': return [unflat(d['t'], it) for _ in range(d['n'])]
    if k == 'tup': return [unflat(t, it) for t in d['ts']]
    if k == 'seq': return [unflat(d['t'], it) for _ in range(next(it))]
    if k == 'opt': return [unflat(d['t'], it)] if next(it) else []
    if k == 'alt':
        i = next(it); return [i, unflat(d['ts'][i], it)]
    if k in ('view', 'fview'):
        a = next(it); return {'a': a, 'd': [next(it) for _ in range(next(it))]}
    if k == 'pb': return [unflat(fd(f), it) for f in d['fs']]
    raise KeyError(k)

# ------------------------------------------------------------------ configurations
def cgrow(buf='std::vector<std::byte>', form='out', **k):
    c = grow(buf, form=form, **k)
    c.code = c.code.split('vf::drive')[0].replace('vf::load_bytes(buf, s["buf"])', 'p = ce::load(buf, p)')
    return c
def cfixed(shape='span', byte='std::byte', cap=None, **k):
    c = fixed('span', byte, cap, **k)
    make = c.code.split('\n', 3)
    rest = c.code[c.code.index('zpp::bits::') if not c.code.startswith('vf') else c.code.index('\n', c.code.index('view(')) + 1:].split('vf::drive')[0]
    if shape == 'span': pre = f'std::vector<{byte}> buf;\n    p = ce::load(buf, p);\n    std::span<{byte}> view(buf.data(), buf.size());\n'
    elif shape == 'array': pre = f'std::array<{byte}, {cap}> buf{{}};\n    p = ce::load(buf, p);\n    auto & view = buf;\n'
    elif shape == 'carray': pre = f'ce::carray<{byte}, {cap}> buf;\n    p = ce::load(buf, p);\n    auto & view = buf.a;\n'
    elif shape == 'sspan': pre = f'std::array<{byte}, {cap}> buf{{}};\n    p = ce::load(buf, p);\n    std::span<{byte}, {cap}> view(buf);\n'
    c.code = pre + rest
    return c
def csource(expr='std::span<const std::byte>', byte='std::byte', **k):
    c = source(expr, byte=byte, **k)
    rest = c.code[c.code.index('auto in' if k.get('form') == 'input' else 'zpp::bits::in in'):].split('vf::drive')[0]
    if expr == 'std::vector': pre = f'std::vector<{byte}> store;\n    p = ce::load(store, p);\n    const auto & buf = store;\n    ce::nothing out;\n    '
    elif expr == 'std::string': pre = 'std::string store;\n    p = ce::load(store, p);\n    const auto & buf = store;\n    ce::nothing out;\n    '
    else: pre = f'std::vector<{byte}> store;\n    p = ce::load(store, p);\n    const auto & buf = store;\n    {expr} view(buf.data(), buf.size());\n    ce::nothing out;\n    '
    c.code = pre + rest
    return c

# ------------------------------------------------------------------ programs
def call_code(c, name):
    o = [f'struct {name} {{', f'    static constexpr bool writable = {"true" if c.w else "false"}, readable = {"true" if c.r else "false"};']
    for i, it in enumerate(c.items): o.append(f'    {it.t.cpp} a{i}{{}};')
    n = range(len(c.items))
    o.append('    constexpr void load([[maybe_unused]] ce::input & p) { ' + ' '.join(f'ce::get(p, a{i});' for i in n) + ' }')
    o.append('    template <typename B> constexpr void save([[maybe_unused]] ce::output<B> & l) const { ' + ' '.join(f'ce::put(l, a{i});' for i in n) + ' }')
    e = ', '.join(it.expr.format(f'a{i}') for i, it in enumerate(c.items))
    o.append(f'    constexpr zpp::bits::errc w(auto & o) {{ return o({e}); }}')
    o.append(f'    constexpr zpp::bits::errc r(auto & i) {{ return i({e}); }}\n}};')
    return '\n'.join(o)

def script_of(sess, calls):
    s = [len(sess['buf'])] + sess['buf']
    for e in sess['ev']:
        if e['o'] in 'wr':
            s += [1 if e['o'] == 'w' else 2, e['t']]
            for it, v in zip(calls[e['t']].items, e['v']): s += flat(it.d, v)
        elif e['o'] == 's': s += [3, 1 if e['a'] == 'out' else 0, HOW[e['m']], e['n']]
        elif e['o'] == 'poke': s += [4, e['n'], e['d'][0]]
    return s + [0]

def bound(sess, calls, cfg):
    """about how long the log gets"""
    n = len(sess['buf']) + sum(o[1] for o in cfg.rec['opts'] if len(o) > 1); tot = n + 8
    for e in sess['ev']:
        m = 0
        if e['o'] in 'wr': m = sum(len(flat(it.d, v)) for it, v in zip(calls[e['t']].items, e['v']))
        if e['o'] == 'w' and cfg.rec['kind'] == 'grow': n = (n + 2 * m + 40) * (2 if not cfg.rec['fit'] else 1)
        tot += n + 8 + 2 * m + (n if e['o'] == 'r' else 0)
    return next((z for z in (256, 512, 1024, 2048, 4096, 16384) if z >= tot * 1.3), 65536)

def tu_code(calls, configs, sessions):
    decls, seen = [], set()
    for c in calls:
        for d in c.decls():
            if d not in seen: seen.add(d); decls.append(d.replace('auto vf_tie()', 'constexpr auto vf_tie()'))
    o = ['#include "ce.hpp"', *decls]
    o += [call_code(c, f'C{i}') for i, c in enumerate(calls)]
    o.append('using Calls = std::tuple<' + ', '.join(f'C{i}' for i in range(len(calls))) + '>;')
    for gi, c in configs:
        o.append(f'constexpr int run{gi}(const int * p, int * log, int cap)\n{{\n    {c.code}\n    return ce::drive<Calls>(p, out, in, buf, log, cap);\n}}')
        o.append(f'template <std::size_t N> constexpr auto eval{gi}(const int * p) {{ ce::log<N> l; l.n = run{gi}(p, l.d.data(), int(N)); return l; }}')
    m = []
    for s, n in sessions:
        i = s['id']
        o.append(f'static constexpr int s{i}[] = {{{", ".join(map(str, s["script"]))}}};')
        o.append(f'static constexpr auto l{i} = eval{s["cfg"]}<{n}>(s{i});')
        m.append(f'    ce::show(f, {i}, "compiled", l{i}.d.data(), l{i}.n, {n});')
        m.append(f'    {{ static int d[65536]; auto n = run{s["cfg"]}(s{i}, d, 65536); ce::show(f, {i}, "run", d, n, 65536); std::fflush(f); }}')
    o.append('int main(int, char ** argv)\n{\n    auto f = std::fopen(argv[2], "w");\n' + '\n'.join(m) + '\n}')
    return '\n'.join(o) + '\n'

def events(sess, log, calls, cfg):
    """the events of one log"""
    it = iter(log); out = []; last = None
    todo = [{'o': 'new'}] + sess['ev']
    for e in todo:
        e = {k: v for k, v in e.items() if k not in ('th', 'c')}
        er = CODES[next(it)]
        op, ip = next(it), next(it)
        b = [next(it) for _ in range(next(it))]
        if e['o'] in 'wr': e['er'] = er
        if e['o'] == 'r':
            e['nv'] = [unflat(i.d, it) for i in calls[e['t']].items]; e['al'] = 0; e['lk'] = 0
        if cfg.has_out: e['op'] = op
        if cfg.has_in: e['ip'] = ip
        if b != last: e['b'] = b; last = b
        out.append(e)
    return out

def run_ce(run, groups, validate, table=()):
    """groups: (name, calls, configs, gen, parts): every session at compile time and at run time"""
    from vf import compile_tu, sh, ModelError, EVALUATOR
    calls, cfgs, tus, sid = [], [], [], 0
    for name, cs, gs, fn, parts, flags in groups:
        gb = len(cfgs); cfgs += gs
        for k in range(parts):
            part = cs[k * len(cs) // parts:(k + 1) * len(cs) // parts]
            if not part: continue
            base = len(calls); calls += part; ss = []
            for j, c in enumerate(gs):
                r = random.Random(f'{run.seed}/{run.prop}/{name}/{k}/{j}')
                for s in fn(r, list(enumerate(part)), c):
                    s['ev'] = [e for e in s['ev'] if e['o'] in ('w', 'r', 's', 'poke')
                               and not (e['o'] == 'r' and not part[e['t']].r) and not (e['o'] == 'w' and not (part[e['t']].w and c.has_out))]
                    for e in s['ev']:
                        if e['o'] == 'poke': e['d'] = e['d'][:1]
                        e.pop('th', None); e.pop('c', None)
                    if not s['ev']: continue
                    s['cfg'] = gb + j; s['id'] = sid; sid += 1; s['script'] = script_of(s, part)
                    ss.append((s, bound(s, part, c)))
            tus.append((f'{name}-{k}', part, base, [(gb + j, c) for j, c in enumerate(gs)], ss, flags))
    types = os.path.join(run.work, 'types-ce.json')
    json.dump({'table': list(table), 'calls': [c.ds() for c in calls], 'cfgs': [c.rec for c in cfgs]}, open(types, 'w'))
    def one(t):
        gcc = t[5] == 'gcc'
        return compile_tu(f'{run.prop}-{t[0]}', tu_code(t[1], t[3], t[4]), GCCF if gcc else ['-fconstexpr-steps=2000000000', '-fbracket-depth=1024'],
                          cxx=['g++', '-std=c++20', '-O0', '-w', '-fsanitize=address'] if gcc else None, limits=EVALUATOR)
    t0 = time.time()
    with cf.ThreadPoolExecutor(8) as ex: built = list(ex.map(one, tus))
    run.cov['build_s'] = round(run.cov.get('build_s', 0) + time.time() - t0, 1)
    lines, src = [], {}
    for n, ((name, part, base, gs, ss, _), (exe, err)) in enumerate(zip(tus, built)):
        if err is not None:
            run.violation(f'not a constant expression: {name}', {'compiler': err[:16000]}); continue
        f = os.path.join(run.work, f'ce{n}.nd')
        r = sh([exe, '-', f], 600)
        logs = {}
        for l in open(f):
            try: j = json.loads(l)
            except ValueError: continue
            if j['how'] == 'compiled' and j['n'] > len(j['log']): raise ModelError('log too short')
            logs[j['id'], j['how']] = j['log']
        byid = dict(gs)
        for s, n_ in ss:
            a, b = logs.get((s['id'], 'compiled')), logs.get((s['id'], 'run'))
            if a is None: raise ModelError(f'no output of {name}: {r.stdout[-2000:]}')
            ev = events(s, a, part, byid[s['cfg']])
            if b is None: ev.append({'o': 'crash'})
            else:
                tw = events(s, b, part, byid[s['cfg']])
                for x, y in zip(ev, tw): x['tw'] = [y.get(q, 0) for q in ('er', 'op', 'ip', 'nv', 'b')]; x['mine'] = [x.get(q, 0) for q in ('er', 'op', 'ip', 'nv', 'b')]
            for x in ev:
                if 't' in x: x['t'] += base
            src[s['id']] = (n, s)
            lines.append(json.dumps({'id': s['id'], 'cfg': s['cfg'], 'b0': s['buf'], 'ev': ev}, separators=(',', ':')))
            if b is None: break
    if not lines: return
    trace = os.path.join(run.work, 'ce.nd'); open(trace, 'w').write('\n'.join(lines) + '\n')
    t0 = time.time()
    rej, st, di = validate(trace, types, run.work)
    run.cov['validate_s'] = round(run.cov.get('validate_s', 0) + time.time() - t0, 1)
    run.account(lines, st, di)
    for a, b, c in rej[:8]:
        n, s = src[a]
        tr = json.loads(next(x for x in lines if x.startswith('{"id":%d,' % a)))
        e = tr['ev'][b - 1]
        run.violation(f'clauses {c} at event {b}', {'config': cfgs[s['cfg']].rec, 'config_code': cfgs[s['cfg']].code,
                      'call': [i.t.cpp for i in calls[e['t']].items] if 't' in e else None, 'rejected_event': b, 'clauses': c,
                      'trace': tr, 'source': built[n][0] + '.cpp'})
