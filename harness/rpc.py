"""Programs with sets of bound functions, and sessions over them."""
import copy, json
from catalog import *
from catalog import enc, Bad, leb
import catalog
import gen as G

class Fn:
    """A function. params: [(type, passing)]; passing '', 'const &', '&&'.
    ret: None, 'errc', a type, or ('ref', type).  kind: free, noexcept, mem, cmem, nmem, cnmem,
    lambda, functor (the last two for apply only).
    opq: None, 'in', 'out', 'inout', 'span', 'spanref', 'cspan', 'none'; reads params, writes ws; qs: what a client sends"""
    def __init__(self, params=(), ret=None, kind='free', opq=None, ws=(), qs=None, conv=None):
        self.params = [p if isinstance(p, tuple) else (p, '') for p in params]
        self.ret, self.kind, self.opq, self.ws = ret, kind, opq, list(ws)
        self.qs = list(qs) if qs is not None else ([t for t, _ in self.params])
        self.conv = conv        # spellings of the types a client passes, where they differ
    def types(self):
        r = [t for t, _ in self.params] + self.ws + self.qs
        if self.rtype() is not None: r.append(self.rtype())
        return r
    def rtype(self):
        if self.ret in (None, 'errc'): return None
        return self.ret[1] if isinstance(self.ret, tuple) else self.ret
    def rcpp(self):
        if self.ret is None: return 'void'
        if self.ret == 'errc': return 'zpp::bits::errc'
        if isinstance(self.ret, tuple): return f'const {self.ret[1].cpp} &' if self.ret[0] == 'cref' else f'{self.ret[1].cpp} &'
        return self.ret.cpp
    def mem(self): return self.kind in ('mem', 'cmem', 'nmem', 'cnmem')
    def rec(self):
        rt = self.rtype()
        return {'ts': [t.d for t, _ in self.params], 'tdv': [t.dv for t, _ in self.params], 'rdv': rt.dv if rt else 0, 'rt': rt.d if rt else {'k': 'empty'},
                'ret': 'void' if self.ret is None else 'errc' if self.ret == 'errc' else 'val',
                'mem': int(self.mem()), 'opq': self.opq or '', 'ws': [t.d for t in self.ws], 'qs': [t.d for t in self.qs]}
    def decl(self, i, span='std::span<std::byte>'):
        cv = {'cmem': ' const', 'cnmem': ' const noexcept', 'nmem': ' noexcept', 'noexcept': ' noexcept'}.get(self.kind, '')
        st = '' if self.mem() else 'static '
        if self.mem(): who = 'this, ++self_count()'
        else: who = 'nullptr, 0'
        R = self.rcpp(); n = len(self.params)
        if not self.opq:
            ps = ', '.join(f'{("const " + t.cpp + " &") if how == "const &" else t.cpp + (" &&" if how == "&&" else "")} a{k}'
                           for k, (t, how) in enumerate(self.params))
            args = ''.join(f', a{k}' for k in range(n))
            return f'    {st}{R} f{i}({ps}){cv} {{ vf::called({i}, {who}{args}); return vf::ret<{R}>(); }}'
        ps = {'in': 'In & in', 'out': 'Out & out', 'inout': 'In & in, Out & out', 'span': f'{span} data',
              'spanref': f'{span} & data', 'none': ''}[self.opq]
        body = []
        if 'span' in self.opq:
            body.append(f'vf::called({i}, {who}, vf::raw(data));')
            if self.opq == 'spanref': body.append('vf::shrink(data);')
        elif self.opq in ('in', 'inout'):
            body.append(''.join(f'{t.cpp} a{k}{{}}; ' for k, (t, _) in enumerate(self.params)))
            args = ''.join(f', a{k}' for k in range(n))
            fail = {'void': 'return;', 'errc': 'return r;'}.get('void' if self.ret is None else self.ret if self.ret == 'errc' else 'val', f'return vf::ret<{R}>();')
            body.append(f'auto r = vf::opaque_read(in{args});')
            body.append(f'if (zpp::bits::failure(r)) {{ vf::called({i}, {who}); {fail} }}')
            body.append(f'vf::called({i}, {who}{args});')
        else:
            body.append(f'vf::called({i}, {who});')
        if self.opq in ('out', 'inout') and self.ws:
            m = len(self.ws)
            body.append(''.join(f'{t.cpp} w{k}{{}}; ' for k, t in enumerate(self.ws)))
            body.append('auto q = vf::opaque_write<0>(out' + ''.join(f', w{k}' for k in range(m)) + ');')
            if self.ret == 'errc': body.append('if (zpp::bits::failure(q)) return q;')
        body.append(f'return vf::ret<{R}>();')
        return f'    {st}{R} f{i}({ps}){cv} {{\n        ' + '\n        '.join(body) + '\n    }'

class Ids:
    """spelling of an id, its descriptor and value"""
    def __init__(self, exprs, d, vals, pad=()):
        self.exprs, self.d, self.vals = exprs, d, vals       # exprs: template arguments

def conv_arg(t, spelling, k):
    """an argument of another type which converts to the parameter's"""
    return f'static_cast<{spelling}>(a{k})'

def program(fns, ids, name='P'):
    """C++ of the bindings and the calls by number"""
    o = [f'template <typename In, typename Out, typename Span> struct {name} {{', '    long count = 0;',
         f'    long & self_count() const {{ return const_cast<{name} *>(this)->count; }}']
    for i, f in enumerate(fns): o.append(f.decl(i, 'Span'))
    bs = []
    for i, f in enumerate(fns):
        bs.append(f'zpp::bits::{"bind_opaque" if f.opq else "bind"}<&{name}::f{i}, {ids.exprs[i]}>')
    o.append(f'    using rpc = zpp::bits::rpc<{", ".join(bs)}>;')
    # requests
    o.append('    static void request(auto & client, const vf::J & e, const char *& er, bool & threw) {')
    o.append('        const auto & v = e["v"]; const bool body = e["body"].n != 0; const bool th = e["th"].n != 0; switch (e["i"].n) {')
    for i, f in enumerate(fns):
        args = []
        o.append(f'        case {i}: {{')
        for k, t in enumerate(f.qs):
            o.append(f'            {t.cpp} a{k}{{}}; vf::get(v[{k}], a{k});')
            args.append(f.conv[k].format(f'a{k}') if f.conv and f.conv[k] else f'a{k}')
        A = ', '.join(args); C = ', '.join(f'std::as_const({a})' if not (f.conv and f.conv[k]) else a for k, a in enumerate(args))
        o.append('            if (body) {')
        o.append(f'                if constexpr (std::is_void_v<decltype(client.template request_body<{ids.exprs[i]}>({A}))>) {{ client.template request_body<{ids.exprs[i]}>({A}); er = "ok"; }}')
        o.append(f'                else er = vf::guarded([&] {{ return client.template request_body<{ids.exprs[i]}>({A}); }}, th, threw);')
        o.append('            } else if (e["cv"].n == 1) {')
        o.append(f'                er = vf::guarded([&] {{ return client.template request<{ids.exprs[i]}>({C}); }}, th, threw);')
        o.append('            } else if (e["cv"].n == 2) {')
        o.append(f'                er = vf::guarded([&] {{ return client.template request<zpp::bits::id<{ids.exprs[i]}>>({A}); }}, th, threw);')
        o.append('            } else {')
        o.append(f'                er = vf::guarded([&] {{ return client.template request<{ids.exprs[i]}>({A}); }}, th, threw);')
        o.append('            }')
        # the arguments stay what they were
        o.append(f'            vf::key("av"); vf::put(\'[\');')
        for k in range(len(f.qs)): o.append(f'            {"vf::put(44);" if k else ""} vf::putv(a{k});')
        o.append(f'            vf::put(\']\'); break; }}')
    o.append('        } }')
    o.append('    static void response(auto & client, const vf::J & e, const char *& er, bool & threw) {\n        switch (e["i"].n) {')
    for i, f in enumerate(fns):
        if isinstance(f.ret, tuple) or f.ret == 'errc': continue
        o.append(f'        case {i}: vf::run_result([&] {{ return client.template response<{ids.exprs[i]}>(); }}, e, er, threw); break;')
    o.append('        } }\n};')
    return '\n'.join(o)

def optargs(be, sz, extra=()): return ''.join(', ' + x for x in G.optlist(be, sz) + list(extra))

class Chan:
    """how the two channels of a session are made"""
    def __init__(self, kind='grow', same=0, be=None, sz=None, ilim=None, form='pair', buf='std::vector<std::byte>', ctx=0, name='P', const=0, cap=0):
        self.rec = dict(be=G.isbig(be), sz='8' if sz == 'n' else (sz or '4'), ilim=-1 if ilim is None else ilim, kind=kind,
                        olim=-1, fit=1, M=3, D=2, opts=[], same=same)
        oo = optargs(be, sz); io = oo + (f', zpp::bits::alloc_limit<{ilim}>{{}}' if ilim is not None else '')
        c = []
        def buffers(n):
            if kind == 'grow': c.append(f'{buf} {n}; {n}.reserve(64); vf::load_bytes({n}, s["buf"]);')
            else: c.append(f'std::vector<std::byte> {n}_store(std::size_t(s["{n}"].n)); std::span<std::byte> {n}({n}_store);')
        if form == 'data':
            assert same
            c.append(f'auto [a, ain, aout] = zpp::bits::data_in_out({oo[2:]}); a.reserve(64); vf::load_bytes(a, s["buf"]);')
        else:
            buffers('a')
            c.append(f'zpp::bits::out aout(a{oo});')
            if const: c.append(f'const auto & ca = a; zpp::bits::in ain(ca{io});')
            else: c.append(f'zpp::bits::in ain(a{io});')
        if not same:
            buffers('z')
            c.append(f'zpp::bits::out zout(z{oo}); zpp::bits::in zin(z{io});')
        zo, zi = ('aout', 'ain') if same else ('zout', 'zin')
        c.append(f'using A_ = std::remove_reference_t<decltype(ain)>; using Z_ = std::remove_reference_t<decltype({zo})>;')
        c.append('using Span = std::remove_cvref_t<decltype(ain.remaining_data())>;')
        c.append(f'using Prog = {name}<A_, Z_, Span>; Prog object; using rpc = typename Prog::rpc;')
        x = ', object' if ctx else ''
        if form in ('pair', 'data') and same: c.append(f'auto [client, server] = rpc::client_server(ain, aout{x});')
        else: c.append(f'typename rpc::client client{{{zi}, aout}}; typename rpc::server server{{ain, {zo}{x}}};')
        def ch(n, o, i): return f'vf::channel<std::remove_reference_t<decltype({n})>, std::remove_reference_t<decltype({o})>, std::remove_reference_t<decltype({i})>>{{{n}, {o}, {i}}}'
        z = 'vf::nothing{}' if same else ch('z', 'zout', 'zin')
        c.append(f'vf::rpc_drive<Prog>(s, {ch("a", "aout", "ain")}, {z}, client, server, &object, object.count, first);')
        self.code = '\n    '.join(c)
        self.eo = {'be': self.rec['be'], 'sz': self.rec['sz']}

def rpc_tu(fns, ids, chans, decls_extra=()):
    decls, seen = [], set()
    for f in fns:
        for t in f.types():
            for d in t.decl:
                if d not in seen: seen.add(d); decls.append(d)
    o = ['#include "rpc.hpp"', 'using namespace zpp::bits::literals;', 'namespace {'] + decls + ['}', program(fns, ids)]
    for g, c in chans: o.append(f'static void run{g}(const vf::J & s, vf::ctx_t &, bool & first) {{\n    {c.code}\n}}')
    o.append('static const vf::runner_entry runners[] = {' + ', '.join(f'{{{g}, run{g}}}' for g, _ in chans) + ', {-1, nullptr}};')
    o.append('int main(int argc, char ** argv) { return vf::run_main(argc, argv, runners); }')
    return '\n'.join(o) + '\n'

def crec(c, fns, ids):
    return {**c.rec, 'idd': ids.d, 'fns': [{**f.rec(), 'id': ids.vals[i]} for i, f in enumerate(fns)]}

# -------------------------------------------------------------- sessions
def enc_all(ts, vs, o): return sum((enc(t.d, v, o) for t, v in zip(ts, vs)), [])

class Maker:
    """keeps track of where the archives are, as long as nothing fails"""
    def __init__(self, r, c, fns, ids):
        self.r, self.c, self.fns, self.ids, self.ev = r, c, fns, ids, []
    def gen_args(self, f): return [t.gen(self.r) for t in f.qs]
    def fill(self, e, f):
        if f.rtype() is not None: e['rv'] = f.rtype().gen(self.r)
        if f.ret == 'errc': e['re'] = self.r.choice([0, 0, 0, 1, 2])
        if f.ws:
            # a function that cannot tell that its writing failed only writes what can be written
            while True:
                e['wv'] = [t.gen(self.r) for t in f.ws]
                if f.ret == 'errc' or self.write_ok(f.ws, e['wv']) is not None: break
        if f.opq == 'spanref': e['tk'] = 0
        return e
    def write_ok(self, ts, vs):
        try: return len(enc_all(ts, vs, self.c.eo))
        except Bad: return None
    def idlen(self): return len(enc(self.ids.d, self.ids.vals[0], self.c.eo))

def session(r, c, fns, ids, hist=None):
    """requests, serves and responses, in batches or in lock step"""
    m = Maker(r, c, fns, ids); o = c.eo; same = c.rec['same']
    ev = m.ev; queue, answers = [], []
    usable = [i for i, f in enumerate(fns)]
    how = lambda: r.choice([0, 0, 1, 2, 3, 4, 5, 6])
    def th(e):
        if r.random() < .15: e['th'] = 1
        return e
    def req():
        i = r.choice(usable); f = fns[i]
        v = m.gen_args(f); n = m.write_ok(f.qs, v)
        e = th({'o': 'req', 'i': i, 'v': v, 'cv': r.choice([0, 0, 1, 2])})
        if r.random() < .25: e['body'] = 1
        if e.get('body') and not f.qs: e.pop('th', None)
        ev.append(e)
        if n is None: return False
        queue.append((i, v, n, e.get('body', 0)))
        return True
    def serve():
        i, v, n, body = queue.pop(0); f = fns[i]
        e = th({'o': 'serve', 'i': i})
        if body: e['id'] = ids.vals[i]
        m.fill(e, f)
        if f.opq == 'spanref': e['tk'] = n
        ev.append(e)
        ret = f.ret
        if f.opq == 'span': queue.clear()       # took everything; in one channel, answers too
        if f.ws and m.write_ok(f.ws, e['wv']) is None: return False
        if ret == 'errc':
            if f.opq and f.ws: answers.append((None, m.write_ok(f.ws, e['wv'])))
            return True
        if f.rtype() is not None and m.write_ok([f.rtype()], [e['rv']]) is None: return False
        pre = m.write_ok(f.ws, e['wv']) if f.ws else 0
        answers.append((i if ret is not None else None, pre))
        if ret is None and r.random() < .3: answers[-1] = (i, pre)      # a response of nothing
        return True
    def resp():
        i, pre = answers.pop(0)
        if pre: ev.append({'o': 's', 'ch': 1 if same else 2, 'a': 'in', 'm': 'add', 'n': pre})
        if i is not None and not isinstance(fns[i].ret, tuple): ev.append({'o': 'resp', 'i': i, 'how': how()})
        elif i is not None: return False
        return True
    ok = True
    for _ in range(r.choice([1, 2, 3])):
        k = r.choice([1, 1, 2, 3, 4])
        if same:
            for _ in range(k):
                ok = ok and req()
                if ok and fns[queue[-1][0]].opq == 'span' : break
            spans = any(fns[q[0]].opq == 'span' for q in queue)
            if spans:
                if not ok: break
                # it takes all that is there: earlier answers too
                while queue and ok: ok = serve()
                return {'buf': [], 'ev': ev}
            while ok and queue: ok = serve()
            while ok and answers: ok = resp()
        else:
            todo = k
            while ok and (todo or queue or answers):
                x = r.random()
                last = queue and fns[queue[-1][0]].opq == 'span'
                if todo and x < .45 and not (last and r.random() < .8): ok = req(); todo -= 1
                elif queue and x < .75: ok = serve()
                elif answers: ok = resp()
        if not ok: break
    if ok and not any(fns[e['i']].opq == 'span' for e in ev if e['o'] == 'req'):
        x = r.random()
        if x < .3: bad(r, m)
        elif x < .4 and not same:
            ev.append({'o': 's', 'ch': 1, 'a': 'in', 'm': 'reset0'})
            first = [e for e in ev if e['o'] == 'serve'][:1]
            if first: ev.append(copy.deepcopy(first[0]))
    return {'buf': [], 'ev': ev}

def bad(r, m):
    """something the server must refuse"""
    ev, ids, fns, o = m.ev, m.ids, m.fns, m.c.eo
    nid = m.idlen(); kind = r.choice(['unknown', 'trunc', 'trunc', 'flip', 'oob', 'nothing', 'answer'])
    lim = m.c.rec['ilim'] >= 0
    i = r.randrange(len(fns)); f = fns[i]
    if f.opq: f_ok = False
    try: body = enc_all(f.qs, m.gen_args(f), o)
    except Bad: return
    idb = enc(ids.d, ids.vals[i], o)
    def other():
        while True:
            x = list(r.choice(ids.vals)) if isinstance(ids.vals[0], list) else r.choice(ids.vals)
            if isinstance(x, list): x[r.randrange(len(x))] ^= 1 << r.randrange(8)
            else: x ^= 1 << r.randrange(8)
            if x not in ids.vals: return x
    def srv(**k):
        e = {'o': 'serve', 'i': i, **k}; m.fill(e, f); 
        if f.opq == 'spanref': e['tk'] = r.choice([0, 1, len(body), 100])
        if r.random() < .15: e['th'] = 1
        ev.append(e)
    if kind == 'unknown':
        x = other(); ev.append({'o': 'raw', 'ch': 1, 'd': enc(ids.d, x, o) + body}); srv()
    elif kind == 'oob':
        ev.append({'o': 'raw', 'ch': 1, 'd': body}); srv(id=other())
    elif kind == 'trunc':
        d = idb + body; d = d[:r.randrange(len(d))] if r.random() < .7 else d[:-1]
        if d: ev.append({'o': 'raw', 'ch': 1, 'd': d})
        srv()
    elif kind == 'nothing': srv()
    elif kind == 'answer' and not m.c.rec['same'] and f.rtype() is not None and not isinstance(f.ret, tuple):
        try: d = enc(f.rtype().d, f.rtype().gen(r), o)
        except Bad: return
        d = d[:r.randrange(len(d))] if d else []
        if d: ev.append({'o': 'raw', 'ch': 2, 'd': d})
        ev.append({'o': 'resp', 'i': i, 'how': r.choice([0, 3, 4, 5, 6])})
    elif kind == 'flip' and (lim or not any(t.f.get('host') for t in f.types())):
        d = list(body)
        if d: d[r.randrange(len(d))] = r.choice([0, 1, 2, 0x80, 0xff, r.randrange(256)])
        ev.append({'o': 'raw', 'ch': 1, 'd': idb + d}); srv()

def fixed_session(r, c, fns, ids):
    """a short life in buffers that may be too small"""
    m = Maker(r, c, fns, ids); can = [i for i, f in enumerate(fns) if not f.opq or not f.ws]
    if not can: return {'ev': []}
    i = r.choice(can); f = fns[i]
    v = m.gen_args(f)
    try: n = m.idlen() + len(enc_all(f.qs, v, c.eo))
    except Bad: n = 8
    s = {'o': 'serve', 'i': i}; m.fill(s, f)
    if f.opq == 'spanref': s['tk'] = r.choice([0, 1, n, 100])
    try: k = len(enc(f.rtype().d, s['rv'], c.eo)) if f.rtype() is not None else 0
    except Bad: k = 0
    a = n + r.choice([0, 0, 0, 3, -1, -r.randrange(1, n + 1)])
    z = max(0, k + r.choice([0, 0, 2, -1, -r.randrange(1, k + 2)]))
    ev = [{'o': 'req', 'i': i, 'v': v, 'cv': 0}]
    if a >= n:
        ev.append(s)
        if z >= k and f.rtype() is not None and not isinstance(f.ret, tuple): ev.append({'o': 'resp', 'i': i, 'how': r.choice([0, 3])})
    return {'buf': [], 'a': max(a, 0), 'z': z, 'ev': ev}

# --------------------------------------------------------------- apply
def apply_program(fns, name='P'):
    o = [f'struct {name} {{', '    using Span = std::span<std::byte>;', '    long count = 0;',
         f'    long & self_count() const {{ return const_cast<{name} *>(this)->count; }}']
    for i, f in enumerate(fns):
        d = f.decl(i)
        if f.kind in ('lambda', 'functor', 'mfunctor', 'nfunctor'):
            cv = {'lambda': '', 'functor': ' const', 'mfunctor': '', 'nfunctor': ' const noexcept'}[f.kind]
            n = len(f.params); R = f.rcpp()
            ps = ', '.join(f'{("const " + t.cpp + " &") if how == "const &" else t.cpp + (" &&" if how == "&&" else "")} a{k}' for k, (t, how) in enumerate(f.params))
            fw = ', '.join(f'std::move(a{k})' if how != 'const &' else f'a{k}' for k, (t, how) in enumerate(f.params))
            d = f.decl(i)
            if f.kind != 'lambda': d += f'\n    struct F{i} {{ {R} operator()({ps}){cv} {{ return f{i}({fw}); }} }};'
            f.lam = f'[]({ps}) -> {R} {{ return f{i}({fw}); }}'
        o.append(d)
    o.append('    void apply(auto & in, const vf::J & e, const char *& er, bool & threw) {\n        auto & self = *this; const auto & cself = *this; auto v = e["v"].n; switch (e["i"].n) {')
    for i, f in enumerate(fns):
        def run(expr): return f'vf::run_result([&]() -> decltype(auto) {{ return zpp::bits::apply({expr}, in); }}, e, er, threw);'
        P = name
        if f.mem():
            if f.kind in ('cmem', 'cnmem'): es = [f'self, &{P}::f{i}', f'cself, &{P}::f{i}']
            else: es = [f'self, &{P}::f{i}']
        elif f.kind == 'lambda': es = [f.lam]
        elif f.kind in ('functor', 'nfunctor'): es = [f'F{i}{{}}', f'std::as_const(fo)']
        elif f.kind == 'mfunctor': es = [f'F{i}{{}}', 'fo']
        else: es = [f'f{i}', f'&{P}::f{i}', 'fp']
        o.append(f'        case {i}: {{')
        if 'functor' in f.kind: o.append(f'            F{i} fo{{}};')
        if not f.mem() and 'functor' not in f.kind and f.kind != 'lambda': o.append(f'            auto fp = &{P}::f{i};')
        for k, x in enumerate(es): o.append(f'            {"if" if k == 0 else "else if"} (v % {len(es)} == {k}) {{ {run(x)} }}')
        o.append('            break; }')
    o.append('        } }\n};')
    return '\n'.join(o)

class Place:
    """an archive to apply functions to"""
    def __init__(self, kind='grow', be=None, sz=None, ilim=None, name='P'):
        self.rec = dict(be=G.isbig(be), sz='8' if sz == 'n' else (sz or '4'), ilim=-1 if ilim is None else ilim, kind='grow',
                        olim=-1, fit=1, M=3, D=2, opts=[], same=1)
        oo = optargs(be, sz); io = oo + (f', zpp::bits::alloc_limit<{ilim}>{{}}' if ilim is not None else '')
        view = {'grow': 'a', 'const': 'std::as_const(a)', 'span': 'std::span<const std::byte>(a)', 'string': 'a'}[kind]
        buf = 'std::string' if kind == 'string' else 'std::vector<std::byte>'
        self.span = kind == 'span'
        self.code = (f'{buf} a; vf::load_bytes(a, s["buf"]); zpp::bits::out aout(a{oo}); zpp::bits::in ain{{{view}{io}}};\n'
                     f'    {name} p; vf::apply_drive(s, vf::channel<std::remove_reference_t<decltype(a)>, std::remove_reference_t<decltype(aout)>, std::remove_reference_t<decltype(ain)>>{{a, aout, ain}}, p, first);')
        self.eo = {'be': self.rec['be'], 'sz': self.rec['sz']}

def apply_tu(fns, places):
    decls, seen = [], set()
    for f in fns:
        for t in f.types():
            for d in t.decl:
                if d not in seen: seen.add(d); decls.append(d)
    o = ['#include "rpc.hpp"', 'namespace {'] + decls + ['}', apply_program(fns)]
    for g, c in places: o.append(f'static void run{g}(const vf::J & s, vf::ctx_t &, bool & first) {{\n    {c.code}\n}}')
    o.append('static const vf::runner_entry runners[] = {' + ', '.join(f'{{{g}, run{g}}}' for g, _ in places) + ', {-1, nullptr}};')
    o.append('int main(int argc, char ** argv) { return vf::run_main(argc, argv, runners); }')
    return '\n'.join(o) + '\n'

def apply_session(r, c, fns, pick):
    f = fns[pick]; ev = []; data = []; sizes = []
    for k in range(r.choice([1, 1, 2, 3])):
        i = pick if k == 0 else r.randrange(len(fns)); g = fns[i]
        vs = [t.gen(r) for t, _ in g.params]
        try: b_ = enc_all([t for t, _ in g.params], vs, c.eo)
        except Bad: continue
        e = {'o': 'apply', 'i': i, 'how': r.randrange(7), 'v': r.randrange(6)}
        if g.rtype() is not None: e['rv'] = g.rtype().gen(r)
        if g.ret == 'errc': e['re'] = r.randrange(3)
        data += b_; sizes.append(len(b_)); ev.append(e)
    x = r.random(); host = any(t.f.get('host') for g in (fns[e['i']] for e in ev) for t in g.types()) and c.rec['ilim'] < 0
    short = flip = False
    if x < .35 and data:
        data = data[:r.randrange(len(data))] if r.random() < .6 else data[:-1]; short = True
    elif x < .5 and data and not host:
        data[r.randrange(len(data))] = r.choice([0, 1, 2, 0x80, 0xff, r.randrange(256)]); flip = True
    if short and host:
        # what lies behind a failed read is not read as something else
        n = 0; keep = []
        for e, k in zip(ev, sizes):
            keep.append(e); n += k
            if n > len(data): break
        ev = keep
    if r.random() < .2:
        n = r.choice([1, 2, 3]); data = G.garbage(r, n) + data; start = {'o': 's', 'ch': 1, 'a': 'in', 'm': 'set', 'n': n}
        ev.insert(0, start)
        if r.random() < .3: ev += [copy.deepcopy(start)] + copy.deepcopy(ev[1:2])
    elif r.random() < .2 and ev: ev += [{'o': 's', 'ch': 1, 'a': 'in', 'm': 'reset0'}, copy.deepcopy(ev[0])]
    return {'buf': data, 'ev': ev}
