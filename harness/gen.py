"""Sessions: scripted sequences of archive calls for the executor."""
import copy
from catalog import enc, Bad

class Config:
    """How the archives of a session are built, and what the specification must know of it."""
    def __init__(self, code, be=0, sz='4', ilim=-1, kind='grow', olim=-1, fit=1, M=3, D=2,
                 opts=(), has_out=True, has_in=True, cap=None, bytecpp='std::byte', seekmax=True, tag=''):
        self.code, self.cap, self.has_out, self.has_in, self.tag = code, cap, has_out, has_in, tag
        self.rec = dict(be=be, sz=sz, ilim=ilim, kind=kind, olim=olim, fit=fit, M=M, D=D,
                        opts=[list(o) for o in opts])
    @property
    def eo(self): return {'be': self.rec['be'], 'sz': self.rec['sz']}

SZOPT = {'1': 'zpp::bits::size1b{}', '2': 'zpp::bits::size2b{}', '4': 'zpp::bits::size4b{}',
         '8': 'zpp::bits::size8b{}', 'v': 'zpp::bits::size_varint{}', '0': 'zpp::bits::no_size{}',
         'n': 'zpp::bits::size_native{}'}

def optlist(be=None, sz=None, lim=None, extra=()):
    o = []
    if be == 1: o.append('zpp::bits::endian::big{}')
    if be == 0: o.append('zpp::bits::endian::little{}')
    if be == 'network': o.append('zpp::bits::endian::network{}')
    if be == 'native': o.append('zpp::bits::endian::native{}')
    if be == 'swapped': o.append('zpp::bits::endian::swapped{}')
    if sz: o.append(SZOPT[sz])
    if lim is not None: o.append(f'zpp::bits::alloc_limit<{lim}>{{}}')
    return o + list(extra)

def _args(first, opts): return ', '.join([first] + list(opts))
def isbig(be): return 1 if be in (1, 'network', 'swapped') else 0

def grow(buf='std::vector<std::byte>', be=None, sz=None, ilim=None, olim=None, extra=(), order=None,
         form='out', copts=(), fit=1, M=3, D=2, tag='', inextra=False):
    """A growable buffer under both archives. copts: construction options [name, n]."""
    ex = list(extra)
    for c in copts:
        ex.append('zpp::bits::append{}' if c[0] == 'append' else f'zpp::bits::{c[0]}({c[1]})')
    if not fit: ex.append('zpp::bits::no_fit_size{}')
    if (M, D) == (1, 1): ex.append('zpp::bits::exact_enlarger{}')
    elif (M, D) != (3, 2): ex.append(f'zpp::bits::enlarger<{M}, {D}>{{}}')
    oo = optlist(be, sz, olim, ex); io = optlist(be, sz, ilim, ex if inextra else ())
    if order:
        for l in (oo, io):      # append and resize act one after the other: their order is kept
            order.shuffle(l)
            at = sorted(l.index(x) for x in ex[len(extra):len(extra) + len(copts)] if x in l)
            for k, x in zip(at, ex[len(extra):]): l[k] = x
    if form == 'out':
        mk = f'zpp::bits::out out({_args("buf", oo)});\n    zpp::bits::in in({_args("buf", io)});'
    elif form == 'io':
        mk = f'auto out = zpp::bits::output({_args("buf", oo)});\n    auto in = zpp::bits::input({_args("buf", io)});'
    elif form == 'in_out':
        assert ilim == olim
        mk = f'auto [in, out] = zpp::bits::in_out({_args("buf", oo)});'
    if form.startswith('data'):
        form, bt = (form.split(':', 1) + [''])[:2]
        bt = f'<{bt}>' if bt else ''
    if form == 'data_in_out':
        assert ilim == olim
        code = (f'auto [buf, in, out] = zpp::bits::data_in_out{bt}({", ".join(oo)});\n'
                f'    vf::load_bytes(buf, s["buf"]);\n')
    elif form == 'data_one':
        code = (f'auto [buf, out] = zpp::bits::data_out{bt}({", ".join(oo)});\n'
                f'    vf::load_bytes(buf, s["buf"]);\n'
                f'    zpp::bits::in in({_args("buf", io)});\n')
    elif form == 'data_two':
        code = (f'auto [buf, in] = zpp::bits::data_in{bt}({", ".join(io)});\n'
                f'    vf::load_bytes(buf, s["buf"]);\n'
                f'    zpp::bits::out out({_args("buf", oo)});\n')
    else:
        code = f'{buf} buf;\n    vf::load_bytes(buf, s["buf"]);\n    {mk}\n'
    code += '    vf::drive<Calls>(s, cx, out, in, buf, [] { return true; }, first);'
    szk = '8' if sz == 'n' else (sz or '4')
    return Config(code, isbig(be), szk, -1 if ilim is None else ilim, 'grow',
                  -1 if olim is None else olim, fit, M, D, copts, tag=tag or 'grow')

def fixed(shape='span', byte='std::byte', cap=None, be=None, sz=None, ilim=None, form='out', order=None):
    oo = optlist(be, sz); io = optlist(be, sz, ilim)
    if order: order.shuffle(oo); order.shuffle(io)
    if shape == 'span':
        code = (f'vf::arena<{byte}> buf;\n    buf.load(s["buf"]);\n'
                f'    std::span<{byte}> view(buf.data(), buf.size());\n')
    elif shape == 'array':
        code = f'vf::array_arena<{byte}, {cap}> buf;\n    buf.load(s["buf"]);\n    auto & view = buf.array();\n'
    elif shape == 'carray':
        code = f'vf::array_arena<{byte}, {cap}> buf;\n    buf.load(s["buf"]);\n    auto & view = buf.carray();\n'
    elif shape == 'sspan':
        code = (f'vf::array_arena<{byte}, {cap}> buf;\n    buf.load(s["buf"]);\n'
                f'    std::span<{byte}, {cap}> view(buf.data(), {cap});\n')
    elif shape == 'rspan':      # archives over temporaries
        code = f'vf::arena<{byte}> buf;\n    buf.load(s["buf"]);\n'
    v = 'view' if shape != 'rspan' else f'std::span<{byte}>(buf.data(), buf.size())'
    if form == 'out':
        code += f'    zpp::bits::out out({_args(v, oo)});\n    zpp::bits::in in({_args(v, io)});\n'
    elif form == 'io':
        code += f'    auto out = zpp::bits::output({_args(v, oo)});\n    auto in = zpp::bits::input({_args(v, io)});\n'
    elif form == 'in_out':
        code += f'    auto [in, out] = zpp::bits::in_out({_args(v, io)});\n'
    code += '    vf::drive<Calls>(s, cx, out, in, buf, [&] { return buf.intact(); }, first);'
    szk = '8' if sz == 'n' else (sz or '4')
    return Config(code, isbig(be), szk, -1 if ilim is None else ilim, 'fixed', cap=cap, tag='fixed')

def source(expr='std::span<const std::byte>', be=None, sz=None, ilim=None, form='in', byte='std::byte'):
    """Input only, over constant data."""
    io = optlist(be, sz, ilim)
    code = f'vf::arena<{byte}> buf;\n    buf.load(s["buf"]);\n    vf::nothing out;\n'
    pre, view = '', 'view'
    if expr == 'std::vector':
        code = (f'std::vector<{byte}> store;\n    vf::load_bytes(store, s["buf"]);\n    store.shrink_to_fit();\n'
                f'    const auto & buf = store;\n    vf::nothing out;\n')
        view = 'buf'
    elif expr == 'std::string':
        code = (f'std::string store;\n    vf::load_bytes(store, s["buf"]);\n'
                f'    const auto & buf = store;\n    vf::nothing out;\n')
        view = 'buf'
    else:
        pre = f'    {expr} view(reinterpret_cast<decltype({expr}{{}}.data())>(buf.data()), buf.size());\n'
    if expr == 'temporary':     # a view that is gone once the archive is made
        pre = ''
        view = f'std::span<const {byte}>(buf.data(), buf.size())'
    elif expr.startswith('const array'):
        n = int(expr.split()[2])
        code = f'vf::array_arena<{byte}, {n}> buf;\n    buf.load(s["buf"]);\n    vf::nothing out;\n'
        pre = f'    const auto & view = buf.{"carray" if "c" == expr.split()[3] else "array"}();\n'
    f = {'in': 'zpp::bits::in in({});', 'input': 'auto in = zpp::bits::input({});'}[form]
    code += pre + '    ' + f.format(_args(view, io)) + '\n'
    intact = '[&] { return buf.intact(); }' if 'arena' in code else '[] { return true; }'
    code += f'    vf::drive<Calls>(s, cx, out, in, buf, {intact}, first);'
    szk = '8' if sz == 'n' else (sz or '4')
    return Config(code, isbig(be), szk, -1 if ilim is None else ilim, 'fixed', has_out=False, tag='source',
                  cap=int(expr.split()[2]) if expr.startswith('const array') else None)

# ------------------------------------------------------------------ values
def scramble(d, v, r, tbl=()):
    """a value of the same shape with other scalars"""
    k = d['k']
    if k == 'b': return r.randrange(256)
    if k == 'bool': return r.randrange(2)
    if k in ('u', 'var'): return [r.randrange(256) for _ in v]
    if k in ('arr', 'seq', 'spn'): return [scramble(d['t'], x, r) for x in v]
    if k == 'tup': return [scramble(t, x, r) for t, x in zip(d['ts'], v)]
    if k == 'raw': return scramble(d['t'], v, r)
    return v

def shapes(d):
    """does reading need a target of the right shape?"""
    k = d['k']
    if k in ('seq', 'spn') and d['s'] == '0': return True
    if k == 'spn': return True
    return any(shapes(x) for x in ([d['t']] if isinstance(d.get('t'), dict) else []) + d.get('ts', []))
def shapes_cfg(d, sz):
    k = d['k']
    if k in ('seq', 'spn') and (d['s'] == '0' or (d['s'] == 'd' and sz == '0')): return True
    if k == 'spn': return True
    return any(shapes_cfg(x, sz) for x in ([d['t']] if isinstance(d.get('t'), dict) else []) + d.get('ts', []))

def old_for(call, vals, cfg, r):
    o = call.old(r)
    for i, it in enumerate(call.items):
        if shapes_cfg(it.d, cfg.rec['sz']) and r.random() < .85:
            o[i] = scramble(it.d, copy.deepcopy(vals[i]), r)
            if it.d['k'] == 'spn' and it.d['s'] != '0' and r.random() < .4:
                x = it.t.gen(r)
                o[i] = o[i] + x if r.random() < .6 else o[i][:-1]
    return o

def enc_call(call, vals, cfg):
    try:
        return sum((enc(i.d, v, cfg.eo) for i, v in zip(call.items, vals)), [])
    except Bad:
        return None

def W(t, v, r=None, call=None):
    e = {'o': 'w', 't': t, 'v': v}
    if r and call and call.const and r.random() < .4: e['c'] = 1
    elif r and call and call.rv and r.random() < .6: e['c'] = 2
    if r and r.random() < .15: e['th'] = 1
    return e
def R(t, v, r=None):
    e = {'o': 'r', 't': t, 'v': v}
    if r and r.random() < .15: e['th'] = 1
    return e
def S(a, m, n=0): return {'o': 's', 'a': a, 'm': m, 'n': n}
Q = {'o': 'q'}

def garbage(r, n): return [r.choice([0xA5, 0xFF, 0, r.randrange(256)]) for _ in range(n)]

def start_of(cfg):
    """output position and size after the construction options"""
    return None

def roundtrip(r, calls, cfg, k=3, pick=None):
    """write some calls, read them back; positions, queries and fresh regions vary"""
    rw = [(i, c) for i, c in calls if c.w and c.r]
    seq = [pick] if pick else []
    while len(seq) < k: seq.append(r.choice(rw))
    vals = [c.gen(r) for _, c in seq]
    if cfg.rec['sz'] == '1':
        pass
    encs = [enc_call(c, v, cfg) for (_, c), v in zip(seq, vals)]
    total = sum(len(e or []) for e in encs)
    ev = []
    if cfg.rec['kind'] == 'grow':
        pre = r.choice([0, 0, 0, 1, 2, 5, total // 2, total + 3])
        buf = garbage(r, pre)
        size, start = pre, 0
        for o in cfg.rec['opts']:
            if o[0] == 'append': start = size
            elif o[0] == 'resize': size = o[1]; start = min(start, size)
        if pre and r.random() < .5 and not cfg.rec['opts']:
            start = r.randrange(pre + 1)
            ev.append(S('out', r.choice(['set', 'reset', 'add']), start))
    elif cfg.cap is None:
        slack = r.choice([0, 0, 1, 3, -1, -2, 8])
        start = r.choice([0, 0, 0, 1, 3])
        n = max(start, start + total + slack)
        buf = garbage(r, n)
        if start: ev.append(S('out', 'set', start))
    else:
        buf = garbage(r, cfg.cap); start = 0
        if r.random() < .4:
            start = r.choice([0, 1, max(0, cfg.cap - total), max(0, cfg.cap - total - 1)])
            start = min(start, cfg.cap)
            ev.append(S('out', 'set', start))
    if start: ev.append(S('in', r.choice(['set', 'reset', 'add']), start))
    pend = []; room = len(buf) - start if cfg.rec['kind'] != 'grow' else 1 << 30
    for (i, c), v, e in zip(seq, vals, encs):
        ev.append(W(i, v, r, c))
        if r.random() < .2: ev.append(Q)
        if e is None or len(e) > room: break           # where that stopped is not for us to know
        room -= len(e)
        pend.append((i, c, v))
        while pend and r.random() < .4:
            j, cc, vv = pend.pop(0); ev.append(R(j, old_for(cc, vv, cfg, r), r))
    for j, cc, vv in pend: ev.append(R(j, old_for(cc, vv, cfg, r), r))
    if r.random() < .3: ev.append(Q)
    if r.random() < .25 and seq and (encs[0] is not None or cfg.rec['ilim'] >= 0):         # once more from where it began
        ev.append(S('in', 'reset', start))
        (i, c), v = seq[0], vals[0]
        ev.append(R(i, old_for(c, v, cfg, r), r))
    return {'buf': buf, 'ev': ev}

def overwrite(r, calls, cfg, k=4, pick=None):
    """writes at changing positions inside existing data, pokes, rereads"""
    rw = [(i, c) for i, c in calls if c.w and c.r]
    n = r.choice([0, 8, 20, 40]) if cfg.cap is None else cfg.cap
    buf = garbage(r, n); ev = []; size = n
    for o in cfg.rec['opts']:
        if o[0] == 'resize': size = o[1]
    pos = 0
    for _ in range(k):
        i, c = pick if pick and r.random() < .5 else r.choice(rw); v = c.gen(r); e = enc_call(c, v, cfg)
        if e is None: continue
        p = r.choice([0, size // 2, size, max(0, size - len(e)), max(0, size - len(e) + 1), r.randrange(size + 1)])
        p = min(p, size)
        ev.append(S('out', r.choice(['set', 'reset']), p))
        ev.append(W(i, v, r, c))
        grows = cfg.rec['kind'] == 'grow' and cfg.rec['olim'] < 0
        if p + len(e) <= size or grows:
            size = max(size, p + len(e))
            ev.append(S('in', r.choice(['set', 'reset']), p))
            ev.append(R(i, old_for(c, v, cfg, r), r))
        if size and r.random() < .3:
            q = r.randrange(size)
            ev.append({'o': 'poke', 'n': q, 'd': [r.randrange(256)]})
        if r.random() < .2: ev.append(Q)
    return {'buf': buf, 'ev': ev}

def evil_enc(d, v, o, r, p, lim):
    """an encoding in which some counts lie"""
    def bad(n, w):
        es = 1
        c = [n + 1, n + 2, max(0, n - 1), 255, 256, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1,
             lim if lim >= 0 else 3, (lim if lim >= 0 else 3) + 1, 2 ** 63, 2 ** 64 - 1, 2 ** 61, 2 ** 62, 2 ** 62 + 1, 2 ** 63 + 1, 2 ** 60, 2 ** 64 // 12 + 1,
             2 ** 64 - r.randrange(1, 12), 2 ** 63 - r.randrange(1, 6), 2 ** 63 + r.randrange(6), 2 ** 64 - 8]
        for k in (2, 4, 8, 24):
            c.append(max(lim, 0) // k); c.append(max(lim, 0) // k + 1)
        return r.choice(c) % (256 ** w if w else 2 ** 64)
    import catalog
    keep = catalog._sz
    def sz(s, n, oo):
        k = oo['sz'] if s == 'd' else s
        if k != '0' and r.random() < p:
            n = bad(n, int(k) if k != 'v' else 0)
        return keep(s, n, oo)
    catalog._sz = sz
    try:
        return enc(d, v, o)
    finally:
        catalog._sz = keep

def hostile(r, calls, cfg, pick=None, only_trunc=False):
    """read damaged streams"""
    rd = [(i, c) for i, c in calls if c.r]
    seq = [pick] if pick else [r.choice(rd)]
    if r.random() < .3: seq.append(r.choice(rd))
    vals = [c.gen(r) for _, c in seq]
    lim = cfg.rec['ilim']
    anyhost = any(c.host for _, c in seq) and lim < 0
    data = []
    mode = 'trunc' if (anyhost or only_trunc) else r.choice(['trunc', 'flip', 'evil', 'evil', 'rand', 'ok', 'splice'])
    try:
        for (_, c), v in zip(seq, vals):
            for it, x in zip(c.items, v):
                if mode == 'evil': data += evil_enc(it.d, x, cfg.eo, r, .6, lim)
                else: data += enc(it.d, x, cfg.eo)
    except Bad:
        data = data or [1]
    if mode == 'trunc':
        data = data[:r.randrange(len(data) + 1)] if r.random() < .7 else data[:max(0, len(data) - 1)]
    elif mode == 'flip' and data:
        for _ in range(r.choice([1, 1, 2, 3])):
            data[r.randrange(len(data))] = r.choice([0, 1, 2, 0x7f, 0x80, 0xff, r.randrange(256)])
    elif mode == 'rand':
        n = r.choice([0, 1, 2, 3, 4, 5, 8, 12, 20])
        data = [r.choice([0, 0, 1, 2, 3, 4, 8, 0x80, 0xff, r.randrange(256)]) for _ in range(n)]
    elif mode == 'splice' and data:
        a = r.randrange(len(data)); data = data[:a] + data[r.randrange(len(data)):]
    elif mode == 'evil':
        data += [r.randrange(4)] * r.choice([0, 0, 3, 9])
    start = 0
    ev = []
    if r.random() < .25:
        start = r.choice([1, 2, 3, 7]); data = garbage(r, start) + data
        ev.append(S('in', 'set', start))
    if cfg.cap is not None:
        data = (data + [0] * cfg.cap)[:cfg.cap]
    for (i, c), v in zip(seq, vals):
        ev.append(R(i, old_for(c, v, cfg, r), r))
    if r.random() < .3:
        ev.append(S('in', 'reset', min(start, len(data))))
        ev.append(R(seq[0][0], old_for(seq[0][1], vals[0], cfg, r), r))
    return {'buf': data, 'ev': ev}

def lies(r, calls, cfg, pick, most=40):
    """one count of an encoding replaced by one at the edges: of the bytes left, of the limit, of the counting range"""
    import catalog
    i, c = pick
    lim = cfg.rec['ilim']
    if not c.r or cfg.cap is not None or (c.host and lim < 0): return []
    v = c.gen(r); keep = catalog._sz; seen = []
    def at(k, n):
        cnt = [0]
        def sz(s, m, o):
            w = o['sz'] if s == 'd' else s
            if w == '0': return []
            cnt[0] += 1
            if cnt[0] - 1 != k: return keep(s, m, o)
            seen.append((w, m))
            return keep(s, n % (2 ** 64 if w == 'v' else 256 ** int(w)), o) if n is not None else keep(s, m, o)
        catalog._sz = sz
        try: return sum((enc(it.d, x, cfg.eo) for it, x in zip(c.items, v)), [])
        finally: catalog._sz = keep
    try:
        at(-1, None)
        ks = 0
        while ks < 3:
            seen.clear(); at(ks, None)
            if not seen: break
            ks += 1
        out = []
        for k in range(ks):
            seen.clear(); plain = at(k, None)
            w, m = seen[0]; top = 2 ** 64 if w == 'v' else 256 ** int(w)
            ns = {m + 1, m + 2, max(0, m - 1), len(plain), len(plain) + 1, top // 2, top // 2 - 1, top // 2 + 1, 2 ** 31, 2 ** 32, 2 ** 32 + m, 2 ** 16 + m, 256 + m}
            ns |= {top - j for j in range(1, 16)}
            for es in (2, 4, 8, 16, 24, 32): ns |= {top // es + j for j in (-1, 0, 1, 2)}
            if lim >= 0:
                for es in (1, 2, 4, 8, 16, 24, 32): ns |= {lim // es, lim // es + 1, lim, lim + 1}
            ns = sorted(n for n in ns if n < top)
            for n in (ns if len(ns) <= most // ks else r.sample(ns, most // ks)):
                st = r.choice([0, 0, 1, 2, 7])
                d = garbage(r, st) + at(k, n) + garbage(r, r.choice([0, 0, 1, 8, 30]))
                ev = ([S('in', 'set', st)] if st else []) + [R(i, old_for(c, v, cfg, r), r)]
                out.append({'buf': d, 'ev': ev})
        return out
    except Bad:
        return []

# ------------------------------------------------- more session generators
def writes(r, calls, cfg, pick=None, k=None):
    """writes only, at some position of a buffer full of garbage"""
    s = roundtrip(r, [(i, _Both(c)) for i, c in calls], cfg, k or r.choice([1, 2]), (pick[0], _Both(pick[1])) if pick else None)
    s['ev'] = [e for e in s['ev'] if e['o'] != 'r' and not (e['o'] == 's' and e['a'] == 'in')]
    return s
class _Both:
    def __init__(self, c): self.__dict__.update(c.__dict__); self.r = True; self._c = c
    def gen(self, r): return self._c.gen(r)
    def old(self, r): return self._c.old(r)

def capacities(r, calls, cfg, pick, most=24):
    """one value into views of every size around its encoding"""
    i, c = pick; v = c.gen(r); e = enc_call(c, v, cfg)
    n = len(e) if e is not None else 6
    out = []
    if cfg.cap is None:
        sizes = list(range(n + 3))
        if len(sizes) > most: sizes = sizes[:2] + sorted(r.sample(sizes[2:-5], most - 7)) + sizes[-5:]
        for m in sizes:
            st = r.choice([0, 0, 1, 5])
            ev = ([S('out', r.choice(['set', 'reset']), st)] if st else []) + [W(i, v, r, c)]
            if r.random() < .3:
                j, cc = r.choice([p for p in calls if p[1].w]); ev.append(W(j, cc.gen(r), r, cc))
            if r.random() < .2: ev.append(copy.deepcopy(Q))
            out.append({'buf': garbage(r, st + m), 'ev': ev})
    else:
        for room in [n - 1, n, n + 1, r.randrange(n + 1), cfg.cap, 0]:
            st = cfg.cap - room
            if 0 <= st <= cfg.cap:
                out.append({'buf': garbage(r, cfg.cap), 'ev': [S('out', 'set', st), W(i, v, r, c)]})
    return out

def prefixes(r, calls, cfg, pick, most=30):
    """every strict prefix of an encoding (and the whole of it)"""
    i, c = pick; v = c.gen(r); e = enc_call(c, v, cfg)
    if e is None: return []
    cuts = list(range(len(e) + 1))
    if len(cuts) > most: cuts = sorted(r.sample(cuts[:-3], most - 3)) + cuts[-3:]
    out = []
    for k in cuts:
        st = r.choice([0, 0, 0, 2]); pre = garbage(r, st)
        data = pre + e[:k]
        if cfg.cap is not None:
            data = (data + [0] * cfg.cap)[:cfg.cap]
        out.append({'buf': data, 'ev': ([S('in', 'set', st)] if st else []) + [R(i, old_for(c, v, cfg, r), r)]})
    return out

def alphabet(r, calls, cfg, pick, length=3, syms=(0, 1, 2, 0x80, 0xff)):
    """every byte string up to a length over a few symbols"""
    import itertools
    i, c = pick; out = []
    for n in range(length + 1):
        for s in itertools.product(syms, repeat=n):
            out.append({'buf': list(s), 'ev': [R(i, old_for(c, c.gen(r), cfg, r))]})
    return out

def around_limit(r, calls, cfg, exact):
    """fill a growing buffer up to the allocation limit and beyond; exact(n) -> (call number, value) of n bytes"""
    L = cfg.rec['olim']; M, D = cfg.rec['M'], cfg.rec['D']
    pre = r.choice([0, 0, 1, 3, L // 2, max(0, L - 1), L, L + 3])
    size = pre; pos = 0; ev = []
    for o in cfg.rec['opts']:
        if o[0] == 'append': pos = size
        elif o[0] == 'resize': size = o[1]; pos = min(pos, size)
    floor = size                     # the buffer never gets smaller than this
    if r.random() < .4:
        pos = r.randrange(size + 1); ev.append(S('out', 'set', pos))
    for _ in range(r.choice([2, 3, 4, 6])):
        edge = L * D // M - size                      # what still fits after enlarging
        n = r.choice([edge, edge + 1, edge - 1, L - pos, L - pos + 1, L - size, L - size + 1, size - pos, size - pos + 1, 1, r.randrange(12)])
        n = max(0, min(n, 90))
        if r.random() < .75:
            t, v, m = exact(r, n)
            ev.append(W(t, v, r))
            if v is None: continue
            grows = m > size - pos
            if not grows: pos += m
            elif (size + m) * M // D <= L: pos += m; size = max(size, pos)
            # multi-part items may or may not have succeeded near the edge: positions then only matter for the choice of sizes
        else:
            i, c = r.choice([x for x in calls if x[1].w]); ev.append(W(i, c.gen(r), r, c))
        if r.random() < .25 and size:
            pos = r.randrange(floor + 1); ev.append(S('out', 'set', pos))
        if r.random() < .1: ev.append(copy.deepcopy(Q))
    return {'buf': garbage(r, pre), 'ev': ev}

def positions(r, calls, cfg, pick=None):
    """writes, reads, seeks, queries and direct access, interleaved; stays inside what exists"""
    both = [(i, c) for i, c in calls if c.w and c.r]
    n = r.choice([0, 6, 16]) if cfg.cap is None else cfg.cap
    buf = garbage(r, n); size = n; ev = [copy.deepcopy(Q)] if r.random() < .5 else []
    for o in cfg.rec['opts']:
        if o[0] == 'resize': size = o[1]
    op = 0; known_at = []
    for o in cfg.rec['opts']:
        if o[0] == 'append': op = n
        elif o[0] == 'resize': op = min(op, o[1])
    ip = 0
    for step in range(r.choice([4, 6, 9])):
        x = r.random()
        if r.random() < .15: ev.append(S(r.choice(['in', 'out']), 'move'))
        if x < .35:
            i, c = pick if pick and r.random() < .5 else r.choice(both)
            v = c.gen(r); e = enc_call(c, v, cfg)
            if e is None: continue
            fits = cfg.rec['kind'] == 'grow' or op + len(e) <= size
            ev.append(W(i, v, r, c))
            if fits:
                known_at = [k for k in known_at if k[0] + k[1] <= op or k[0] >= op + len(e)]
                known_at.append((op, len(e), i, c, v)); op += len(e); size = max(size, op)
            else:
                # where it stops is known only to the executor: go somewhere definite
                op = r.randrange(size + 1); ev.append(S('out', 'set', op)); known_at = []
        elif x < .6 and known_at:
            p, m, i, c, v = r.choice(known_at)
            if ip != p:
                if p > ip and r.random() < .3: ev.append(S('in', 'add', p - ip))
                elif p < ip and r.random() < .3: ev.append(S('in', 'sub', ip - p))
                elif p == 0: ev.append(S('in', 'reset0'))
                else: ev.append(S('in', r.choice(['set', 'reset']), p))
            ev.append(R(i, old_for(c, v, cfg, r), r)); ip = p + m
        elif x < .72:
            t = r.randrange(size + 1)
            how = r.choice(['set', 'reset', 'rel', 'reset0'])
            if how == 'reset0': t = 0; ev.append(S('out', 'reset0'))
            elif how == 'rel': ev.append(S('out', 'add', t - op) if t >= op else S('out', 'sub', op - t))
            else: ev.append(S('out', how, t))
            op = t
        elif x < .82 and size:
            q = r.randrange(size); d = garbage(r, min(size - q, r.choice([1, 2])))
            ev.append({'o': 'poke', 'n': q, 'd': d})
            known_at = [k for k in known_at if k[0] + k[1] <= q or k[0] >= q + len(d)]
        else:
            ev.append(copy.deepcopy(Q))
    ev.append(copy.deepcopy(Q))
    return {'buf': buf, 'ev': ev}

def many(r, calls, cfg, pick):
    """calls of several items, some of which fail"""
    i, c = pick
    v = c.gen(r); e = enc_call(c, v, cfg)
    good = sum((enc(it.d, x, cfg.eo) for it, x in zip(c.items, v)), []) if e is not None else None
    parts = []
    for it, x in zip(c.items, v):
        try: parts.append(len(enc(it.d, x, cfg.eo)))
        except Bad: parts.append(0)
    total = sum(parts)
    ev = []
    th = 1 if r.random() < .5 else 0
    if r.random() < .55:                     # write, then read what was written
        if cfg.rec['kind'] == 'grow':
            buf = garbage(r, r.choice([0, 3, total]))
        else:
            room = r.choice([total, total + 2, max(0, total - 1), r.randrange(total + 1)])
            buf = garbage(r, room if cfg.cap is None else cfg.cap)
            if cfg.cap is not None and room < cfg.cap:
                ev.append(S('out', 'set', cfg.cap - room)); ev.append(S('in', 'set', cfg.cap - room))
        ev.append({'o': 'w', 't': i, 'v': v, 'th': th})
        if e is not None and c.r: ev.append({'o': 'r', 't': i, 'v': old_for(c, v, cfg, r), 'th': th})
        return {'buf': buf, 'ev': ev}
    data = list(good) if good is not None else []
    x = r.random()
    if x < .5: data = data[:r.randrange(len(data) + 1)]
    elif x < .85 and data: data[r.randrange(len(data))] = r.choice([0, 1, 2, 5, 0x80, 0xff])
    if cfg.cap is not None: data = (data + [0] * cfg.cap)[:cfg.cap]
    ev.append({'o': 'r', 't': i, 'v': old_for(c, v, cfg, r), 'th': th})
    return {'buf': data, 'ev': ev}

# ---------------------------------------------------------------- protobuf
def pbsplit(r, xs):
    """cut a list into pieces"""
    out = []; xs = list(xs)
    while xs:
        k = r.randrange(1, len(xs) + 1); out.append(xs[:k]); xs = xs[k:]
    return out
def pbfield(f, x, r, o, mess):
    """the occurrences of one field, in their order"""
    from catalog import tag, leb, fld, _en, _fixwt
    k, n = f['k'], f['f']
    def body(d, v): return pbbody(d, v, r, o, mess)
    if k == 'rsv': return []
    if k == 'msg':
        b = body(f['t'], x); return [tag(n, 2) + leb(len(b)) + b]
    if k == 'rmsg':
        out = []
        for y in x:
            if f['t']['k'] == 'pb': b = body(f['t'], y)
            else: return [tag(n, 2) + enc(f['t'], y, o) for y in x]
            out.append(tag(n, 2) + leb(len(b)) + b)
        return out
    if k in ('rvar', 'renum', 'rfix') and x:
        def one(y): return _en(f['t'], y) if k == 'renum' else enc(f['t'], y, o)
        wt = 0 if k != 'rfix' else _fixwt(f['t']['n'])
        how = r.random()
        if how < .3: return [fld(f, x, o)]
        if how < .55: return [tag(n, wt) + one(y) for y in x]
        out = []
        for p in pbsplit(r, x):
            if r.random() < .3: out += [tag(n, wt) + one(y) for y in p]
            else:
                b = sum((one(y) for y in p), []); out.append(tag(n, 2) + leb(len(b)) + b)
        if r.random() < .2: out.insert(r.randrange(len(out) + 1), tag(n, 2) + [0])
        return out
    if k == 'map':
        out = []
        for kv in x:
            a, b = fld(f['kf'], kv[0], o), pbfield(f['vf'], kv[1], r, o, mess)
            parts = ([a] if a else []) + b
            y = r.random()
            if mess and y < .2: parts = parts[::-1]
            elif mess and y < .3: parts = parts[:1]
            elif mess and y < .4: parts = b
            if mess and r.random() < .1: parts.insert(r.randrange(len(parts) + 1), unknown(r, {1, 2}))
            z = sum(parts, []); out.append(tag(n, 2) + leb(len(z)) + z)
        return out
    s = fld(f, x, o)
    return [s] if s else []
def unknown(r, used):
    """a field the message does not declare"""
    from catalog import tag, leb
    while True:
        n = r.choice([1, 2, 3, 4, 5, 6, 7, 15, 16, 17, 100, 2047, 2048, 19000, 536870911, r.randrange(1, 40)])
        if n not in used: break
    wt = r.choice([0, 1, 2, 5])
    if wt == 0: return tag(n, 0) + r.choice([[0], [0x7f], [0x80, 1], [0xff] * 9 + [1], [0xff, 0xff, 3]])
    if wt == 1: return tag(n, 1) + garbage(r, 8)
    if wt == 5: return tag(n, 5) + garbage(r, 4)
    m = r.choice([0, 1, 3, 9]); return tag(n, 2) + leb(m) + garbage(r, m)
def wired(r, n):
    """field n with any wire type"""
    from catalog import tag, leb
    wt = r.choice([0, 1, 2, 5])
    if wt == 0: return tag(n, 0) + r.choice([[0], [1], [1], [0x7f], [0x80, 1], [0xff, 0xff, 3]])
    if wt == 1: return tag(n, 1) + garbage(r, 8)
    if wt == 5: return tag(n, 5) + garbage(r, 4)
    m = r.choice([0, 1, 4, 8, 9]); return tag(n, 2) + leb(m) + r.choice([garbage(r, m), [8] * m, [0] * m, [10, 0] * (m // 2) + [0] * (m % 2)])
def pbbody(d, v, r, o, mess=1):
    """the content of a message as another implementation might have written it"""
    used = {f['f'] for f in d['fs'] if f['k'] != 'rsv'}
    lists = []
    for f, x in zip(d['fs'], v):
        occ = pbfield(f, x, r, o, mess)
        if mess and r.random() < .12: occ = []                      # absent
        elif mess and f['k'] in ('var', 'fix', 'bool', 'enum') and r.random() < .15:
            occ = pbfield(f, scramble(f['t'], x, r), r, o, 0) + occ  # an earlier occurrence
        if occ: lists.append(occ)
    out = []
    if mess and r.random() < .8:
        while lists:                          # interleave, keeping the order within a field
            q = r.choice(lists); out.append(q.pop(0))
            lists = [q for q in lists if q]
        while r.random() < .35: out.insert(r.randrange(len(out) + 1), unknown(r, used))
    else:
        out = sum(lists, [])
    return sum(out, [])

def pbstream(d, v, r, cfg, mess=1):
    import catalog
    o = {'be': 0, 'sz': 'v'}
    b = pbbody(d, v, r, o, mess)
    return catalog._sz(d['s'], len(b), cfg.eo) + b

def pbmix(r, calls, cfg, pick):
    """well-formed messages nobody here wrote, between other data"""
    i, c = pick; v = c.gen(r); data = []
    sized = cfg.rec['sz'] != '0' and all(it.d['s'] != '0' for it in c.items if it.d['k'] == 'pb')
    for it, x in zip(c.items, v):
        data += pbstream(it.d, x, r, cfg) if it.d['k'] == 'pb' else enc(it.d, x, cfg.eo)
    st = r.choice([0, 0, 2]); tail = garbage(r, r.choice([0, 0, 3])) if sized else []
    if cfg.rec['sz'] == '1' and len(data) > 250: return {'buf': [], 'ev': []}
    return {'buf': garbage(r, st) + data + tail, 'ev': ([S('in', 'set', st)] if st else []) + [R(i, c.old(r), r)]}

def pbdamage(r, calls, cfg, pick):
    """messages with something wrong in them"""
    import catalog
    i, c = pick; v = c.gen(r)
    how = r.choice(['trunc', 'len', 'flip', 'zero', 'group', 'odd', 'nest', 'rand', 'enclose', 'wire', 'wire'])
    keep = catalog.leb, catalog._sz
    hit = [r.randrange(1, 9)]
    def badlen(n):
        hit[0] -= 1
        if hit[0] == 0 or (hit[0] < 0 and r.random() < .1):
            n = r.choice([n + 1, n + 2, max(0, n - 1), n + 100, 127, 128, 255, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 63, 2 ** 64 - 1])
        return keep[0](n)
    data = []
    try:
        if how == 'len': catalog.leb = badlen
        for it, x in zip(c.items, v):
            d = it.d
            if d['k'] != 'pb': data += enc(d, x, cfg.eo); continue
            b = pbbody(d, x, r, {'be': 0, 'sz': 'v'}, r.randrange(2))
            if how == 'zero':
                b = b + r.choice([[0], [1], [2, 0], [5, 1, 2, 3, 4], [0, 0]])
            elif how in ('odd', 'nest', 'wire') and not d['fs']: pass
            elif how == 'wire':
                # declared fields with all wire types, before and after the proper ones
                for _ in range(r.choice([1, 1, 2, 3])):
                    x_ = wired(r, r.choice(d['fs'])['f'])
                    b = b + x_ if r.random() < .6 else x_ + b
            elif how == 'group':
                b = b + catalog.tag(r.choice([1, 2, 3, 9, 50]), r.choice([3, 4, 6, 7])) + garbage(r, r.randrange(3))
            elif how == 'odd':
                f = r.choice(d['fs'])
                n = r.choice([0, 1, 2, 3, 5, 7, 9, 11]); b = b + catalog.tag(f['f'], 2) + [n] + [r.choice([0, 1, 0x80, 0xff]) for _ in range(n)]
            elif how == 'nest':
                f = r.choice(d['fs'])
                inner = r.choice([[0x80], [0xff] * 10 + [1], [8], [0x0a, 5, 1], [0x10, 0x80], [0x0d, 1, 2], [0], [0x0a, 0xff, 0xff, 0xff, 0xff, 0x0f], [0x12, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1]])
                b = b + catalog.tag(f['f'], 2) + [len(inner)] + inner
            elif how == 'trunc' and b: b = b[:r.randrange(len(b))]
            elif how == 'flip' and b:
                b = list(b); b[r.randrange(len(b))] = r.choice([0, 1, 2, 0x7f, 0x80, 0xff, r.randrange(256)])
            n = len(b)
            if how == 'enclose': n = max(0, n + r.choice([1, 2, 5, -1, -2, -3, 1000]))
            catalog.leb = keep[0]
            data += catalog._sz(d['s'], n, cfg.eo) + b
            if how == 'len': catalog.leb = badlen
    finally:
        catalog.leb, catalog._sz = keep
    if how == 'rand':
        data = [r.choice([0, 1, 2, 8, 9, 0x0a, 0x0d, 0x10, 0x12, 0x15, 0x1a, 0x80, 0xff, 4, r.randrange(256)]) for _ in range(r.randrange(24))]
        if cfg.rec['sz'] != '0' and r.random() < .8:
            data = catalog._sz('d', len(data), cfg.eo) + data
    tail = garbage(r, r.choice([0, 0, 1, 4, 20]))
    return {'buf': data + tail, 'ev': [R(i, old_for(c, c.gen(r), cfg, r), r)]}

def counted(r, calls, cfg, pick, n):
    """n elements: written, then read back"""
    i, c = pick; v = []
    for it in c.items:
        d, t = it.d, it.t
        if d['k'] in ('seq', 'spn', 'set', 'map'):
            xs = []
            if d['k'] == 'seq' or d['k'] == 'spn':
                one = [r.randrange(256) if d['t']['k'] == 'b' else [r.randrange(256) for _ in range(d['t'].get('n', 1))] if d['t']['k'] == 'u' else None for _ in range(n)]
                xs = one if n == 0 or one[0] is not None else [copy.deepcopy(y) for _, y in zip(range(n), (t.gen(r) for _ in iter(int, 1)) ) for y in y][:n]
            elif d['k'] == 'set':
                xs = [list(q.to_bytes(d['t']['n'], 'little')) for q in sorted(r.sample(range(256 ** min(d['t']['n'], 3)), n))]
            else:
                kt, vt = d['t']['ts']
                xs = [[list(q.to_bytes(kt['n'], 'little')), scramble(vt, [0] * vt.get('n', 0), r)] for q in sorted(r.sample(range(256 ** min(kt['n'], 3)), n))]
            v.append(xs)
        elif d['k'] == 'view': v.append({'a': -1, 'd': [r.randrange(256) for _ in range(n)]})
        else: v.append(it.gen(r))
    old = c.old(r)
    for j, it in enumerate(c.items):
        if shapes_cfg(it.d, cfg.rec['sz']): old[j] = scramble(it.d, copy.deepcopy(v[j]), r)
    ev = [{'o': 'w', 't': i, 'v': v}]
    if c.r: ev.append({'o': 'r', 't': i, 'v': old})
    j, cc = r.choice([p for p in calls if p[1].w and p[1].r])
    w = cc.gen(r)
    if enc_call(cc, w, cfg) is not None:
        ev += [{'o': 'w', 't': j, 'v': w}]
        if c.r: ev += [{'o': 'r', 't': j, 'v': old_for(cc, w, cfg, r)}]
    return {'buf': [], 'ev': ev}

def reading(r, calls, cfg, pick=None):
    """reads at absolute positions of some data, with queries in between"""
    i, c = pick if pick else r.choice(calls)
    n = r.choice([0, 1, 3, 8, 14]) if cfg.cap is None else cfg.cap
    data = []
    for _ in range(r.choice([1, 2, 3])):
        j, cc = (i, c) if r.random() < .6 else r.choice(calls)
        data += enc_call(cc, cc.gen(r), cfg) or []
    data = (data + [r.choice([0, 1, 2, r.randrange(256)]) for _ in range(n)])[:60]
    if cfg.cap is not None: data = (data + [1] * cfg.cap)[:cfg.cap]
    ev = []
    for _ in range(r.choice([3, 4, 6])):
        x = r.random()
        if x < .6:
            j, cc = (i, c) if r.random() < .6 else r.choice(calls)
            if cc.host and cfg.rec['ilim'] < 0: continue
            ev.append(R(j, old_for(cc, cc.gen(r), cfg, r), r))
        elif x < .85:
            how = r.choice(['set', 'reset', 'reset0']); ev.append(S('in', how, 0 if how == 'reset0' else r.randrange(len(data) + 1)))
        if r.random() < .5: ev.append(copy.deepcopy(Q))
    return {'buf': data, 'ev': ev}
