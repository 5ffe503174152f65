"""Behaviours enumerated by the specification (spec/Explore.tla) and replayed on the library."""
import copy, json, os, time
import gen as G
from vf import Suite, explore, design

class World:
    """the calls that may be made on one configuration, from one start"""
    def __init__(self, name, calls, cfg, ops, after, most, b0, **kw):
        self.name, self.calls, self.cfg, self.ops, self.after, self.most, self.b0, self.kw = name, calls, cfg, ops, after, most, b0, kw

def suites(run, worlds):
    """explore all of them; one suite each, with a session for every call in every reachable state"""
    t = time.time()
    data = {'table': [], 'worlds': [{'cfg': w.cfg.rec, 'calls': [c.ds() for c in w.calls], 'ops': w.ops, 'after': [i + 1 for i in w.after],
                                     'max': w.most, 'b0': w.b0} for w in worlds]}
    paths, st, di = explore('Explore', data, run.work)
    run.cov['explored_states'] = run.cov.get('explored_states', 0) + di
    run.cov['explored_behaviours'] = run.cov.get('explored_behaviours', 0) + sum(map(len, paths.values()))
    run.cov['explore_s'] = round(run.cov.get('explore_s', 0) + time.time() - t, 1)
    out = []
    for k, w in enumerate(worlds):
        def g(r, cs, c, w=w, ps=paths.get(k, [])):
            base = cs[0][0]; res = []
            for p in ps:
                ev = [dict(w.ops[i]) for i in p]
                for e in ev:
                    if 't' in e: e['t'] += base
                res.append({'buf': w.b0, 'ev': ev})
            return res
        out.append(Suite('x' + w.name, w.calls, [w.cfg], g, tus=1, **w.kw))
    return out

def seeks(a, n):
    return [G.S(a, 'reset0')] + [G.S(a, 'set', k) for k in range(1, n + 1)] + [G.S(a, 'add', 1), G.S(a, 'sub', 1), G.S(a, 'reset', n - 1), G.S(a, 'move')]

# ---------------------------------------------------------------- protobuf
def tokens(call, r, most):
    """single occurrences of the fields of a message, unknown ones and broken ones"""
    import catalog
    from catalog import tag, leb, fld, enc, _en, _fixwt
    o = {'be': 0, 'sz': 'v'}; d = call.items[0].d; out = []
    used = {f['f'] for f in d['fs'] if f['k'] != 'rsv'}
    for i, f in enumerate(d['fs']):
        k, n = f['k'], f['f']; mine = []
        def tok(b, op, v): mine.append({'b': b, 'f': i + 1, 'op': op, 'v': v})
        gens = [call.items[0].t.gen(r)[i] for _ in range(12)]
        if k == 'rsv': continue
        if k in ('var', 'enum', 'bool', 'fix'):
            for x in gens[:3]: tok(fld(f, x, o), 'set', x)
        elif k == 'msg':
            for x in gens[:2]: tok(fld(f, x, o), 'set', x)      # written by the library: all its fields are there
        elif k == 'str':
            tok(tag(n, 2) + [0], 'set', [])
            for x in [g for g in gens if g][:2]: tok(tag(n, 2) + leb(len(x)) + x, 'set', x)
        elif k in ('rvar', 'renum', 'rfix'):
            def one(y): return _en(f['t'], y) if k == 'renum' else enc(f['t'], y, o)
            wt = 0 if k != 'rfix' else _fixwt(f['t']['n'])
            tok(tag(n, 2) + [0], 'app', [])
            for x in [g for g in gens if g][:2]:
                b = sum((one(y) for y in x), []); tok(tag(n, 2) + leb(len(b)) + b, 'app', x)
                tok(tag(n, wt) + one(x[0]), 'app', x[:1])
            mine.append({'b': tag(n, 2) + [1, 0x80], 'f': 0, 'op': 'bad', 'v': []})      # an element cut short
        elif k == 'rmsg':
            for x in [g for g in gens if g][:2]: tok(tag(n, 2) + enc(f['t'], x[0], o), 'app', x[:1])
        elif k == 'map':
            for x in [g for g in gens if g][:3]:
                e = fld(f['kf'], x[0][0], o) + fld(f['vf'], x[0][1], o); tok(tag(n, 2) + leb(len(e)) + e, 'put', x[0])
        out.append(mine[:most])
    free = [n for n in (1, 2, 3, 7, 15, 16, 100, 2048, 536870911) if n not in used]
    u = [tag(r.choice(free), 0) + [0xff] * 9 + [1], tag(r.choice(free), 1) + [9] * 8, tag(r.choice(free), 5) + [8] * 4, tag(r.choice(free), 2) + [3, 1, 2, 3], tag(r.choice(free), 2) + [0]]
    bad = [[0, 1], tag(r.choice(free), 3), tag(r.choice(free), 6) + [0], tag(r.choice(free), 2) + [120, 1], [0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 1]]
    toks = sum(out, []) + [{'b': x, 'f': 0, 'op': 'none', 'v': []} for x in r.sample(u, 3)] + [{'b': x, 'f': 0, 'op': 'bad', 'v': []} for x in r.sample(bad, 2)]
    return toks

def fields(run, calls, cfg, most, length, name='F'):
    """every sequence of field occurrences of each message, judged and replayed; the calls read messages without a length"""
    import random
    t = time.time(); r = random.Random(f'{run.seed}/{run.prop}/fields')
    ws = []
    for c in calls:
        toks = tokens(c, r, most)
        old = c.items[0].t.gen(r)
        ws.append({'d': c.items[0].d, 'old': old, 'toks': toks, 'max': length if len(toks) <= 14 else length - 1})
    paths, st, di = explore('Fields', {'table': [], 'worlds': ws}, run.work)
    run.cov['explored_states'] = run.cov.get('explored_states', 0) + di
    run.cov['explored_behaviours'] = run.cov.get('explored_behaviours', 0) + sum(map(len, paths.values()))
    run.cov['explore_s'] = round(run.cov.get('explore_s', 0) + time.time() - t, 1)
    def g(r, cs, c):
        res = []
        for (i, call) in cs:
            k = next(k for k, x in enumerate(calls) if x is call); w = ws[k]
            res += [{'buf': sum((w['toks'][j]['b'] for j in p), []), 'ev': [G.R(i, [w['old']])]} for p in paths.get(k, [])]
        return res
    return Suite('x' + name, calls, [cfg], g, tus=min(4, len(calls)))

# --------------------------------------------------------------------- rpc
def rpc_ops(r, fns, ids, eo, body, bad, same):
    from catalog import enc
    ops = []
    for i, f in enumerate(fns):
        v = [t.gen(r) for t in f.qs]
        ops.append({'o': 'req', 'i': i, 'v': v, 'cv': 0})
        if i in body: ops.append({'o': 'req', 'i': i, 'v': v, 'cv': 0, 'body': 1})
        s = {'o': 'serve', 'i': i}
        if f.rtype() is not None: s['rv'] = f.rtype().gen(r)
        if f.ret == 'errc': s['re'] = 0
        ops.append(s)
        if i in body: ops.append({**s, 'id': ids.vals[i]})
        if f.ret != 'errc': ops.append({'o': 'resp', 'i': i, 'how': r.choice([0, 3])})
    if bad:
        while True:
            x = list(ids.vals[0]) if isinstance(ids.vals[0], list) else ids.vals[0]
            if isinstance(x, list): x[r.randrange(len(x))] ^= 1 << r.randrange(8)
            else: x ^= 1 << r.randrange(8)
            if x not in ids.vals: break
        ops.append({'o': 'raw', 'ch': 1, 'd': enc(ids.d, x, eo) + [1, 2]})
    return ops

def rpc_sessions(run, worlds):
    """worlds: (record of the configuration, operations, most requests) -> sessions per world"""
    t = time.time()
    paths, st, di = explore('RpcExplore', {'table': [], 'worlds': [{'cfg': c, 'ops': o, 'max': m} for c, o, m in worlds]}, run.work)
    run.cov['explored_states'] = run.cov.get('explored_states', 0) + di
    run.cov['explored_behaviours'] = run.cov.get('explored_behaviours', 0) + sum(map(len, paths.values()))
    run.cov['explore_s'] = round(run.cov.get('explore_s', 0) + time.time() - t, 1)
    return [[{'buf': [], 'ev': [dict(o[i]) for i in p]} for p in paths.get(k, [])] for k, (c, o, m) in enumerate(worlds)]

def results(run, worlds):
    """worlds: (record of the configuration, operations, how many) -> sessions per world"""
    t = time.time()
    paths, st, di = explore('ResultsExplore', {'worlds': [{'cfg': c, 'ops': o, 'max': m} for c, o, m in worlds]}, run.work)
    run.cov['explored_states'] = run.cov.get('explored_states', 0) + di
    run.cov['explored_behaviours'] = run.cov.get('explored_behaviours', 0) + sum(map(len, paths.values()))
    run.cov['explore_s'] = round(run.cov.get('explore_s', 0) + time.time() - t, 1)
    return [[{'buf': [], 'ev': [dict(o[i]) for i in p]} for p in paths.get(k, [])] for k, (c, o, m) in enumerate(worlds)]

# -------------------------------------------------------------------- laws
def open_kind(d, sz):
    """1: takes its shape from the target; 2: extends to the end of the data"""
    k = d['k']; x = 0
    if k in ('seq', 'spn') and (d['s'] == '0' or d['s'] == 'd' and sz == '0'): return 1
    if k == 'spn': x = 1
    if k in ('view', 'pb') and (d['s'] == '0' or d['s'] == 'd' and sz == '0'): return 2
    subs = [d['t']] if isinstance(d.get('t'), dict) else []
    subs += d.get('ts', [])
    if k == 'pb': subs += [f['t'] for f in d['fs'] if isinstance(f.get('t'), dict)]
    return max([x] + [open_kind(y, sz) for y in subs])

def laws(run, ts, opts, vals, most, alphabet=(0, 1, 2, 8, 10, 128, 255), table=()):
    """the laws of the format, checked on the specification for sampled values and all short byte strings"""
    import random
    from catalog import enc, Bad
    t0 = time.time(); r = random.Random(f'{run.seed}/{run.prop}/laws'); types = []
    for t in ts:
        vs = []
        for _ in range(vals * 3):
            v = t.gen(r)
            try:
                if len(enc(t.d, v, {'be': 0, 'sz': '2'})) <= 48: vs.append(v)
            except Bad: vs.append(v)
        types.append({'d': t.d, 'vals': vs[:vals], 'open': open_kind(t.d, '2'), 'max': most})
    f = os.path.join(run.work, 'laws.json')
    json.dump({'table': list(table), 'opts': [{'be': b, 'sz': s, 'lim': l} for b, s, l in opts], 'types': types, 'alphabet': list(alphabet)}, open(f, 'w'))
    st, di = design('Laws', run.work, env={'VF_TYPES': f})
    run.cov['law_states'] = run.cov.get('law_states', 0) + di
    run.cov['explore_s'] = round(run.cov.get('explore_s', 0) + time.time() - t0, 1)
