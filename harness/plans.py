"""What each property's check explores."""
import copy, hashlib, random, sys, os, json
from catalog import *
from catalog import Call, Item
import gen as G
from vf import Suite, ModelError, design
from gen import grow, fixed, source
import explore as X

def scale(run, q, t=None):
    return q if run.tier == 'quick' else (t if t is not None else q * 8)

# ------------------------------------------------------------- type pools
def scalars():
    return [b('unsigned char'), b('signed char'), b('char'), b('std::byte'), b('char8_t'), boolean(),
            u(2, 'std::uint16_t'), u(2, 'std::int16_t'), u(2, 'char16_t'), u(4, 'std::uint32_t'), u(4, 'int'),
            u(4, 'char32_t'), u(4, 'wchar_t'), u(8, 'std::uint64_t'), u(8, 'long long'), u(8, 'long'),
            u(4, 'float'), u(8, 'double'), enum(1, 'unsigned char'), enum(2, 'short'), enum(4, 'int'),
            enum(8, 'long', False)]
def wide():
    """16-byte integers (run time only: the compile-time harness spells numbers out as 64-bit literals)"""
    i = lambda: u(16, 'vf::i128')
    return [u(16, 'vf::u128'), i(), vec(u(16, 'vf::u128')), arr(2, i()), tup(u8(), i())]
i32 = lambda: u(4, 'int')
u16 = lambda: u(2, 'std::uint16_t')
u32 = lambda: u(4, 'std::uint32_t')
u64 = lambda: u(8, 'std::uint64_t')
u8 = lambda: b('unsigned char')
def mixagg(style='auto'): return agg([i32(), string(), b('char')], style)
def bulkagg(): return sized_struct(agg([u32(), u32()]), 8)
def padagg(): return sized_struct(agg([b('char'), u32(), u16()]), 12)

def containers():
    return [vec(u8()), vec(b('char')), vec(b('std::byte')), vec(u16()), vec(i32()), vec(u(8, 'double')),
            string(), u16string(), wstring(), deque(i32()), deque(u8()), lst(u16()), lst(string()),
            vec(string()), vec(vec(i32())), vec(arr(2, u16())), vec(bulkagg()), vec(padagg()),
            vec(sized_struct(mixagg(), 40)), vec(enum(2, 'unsigned short')), deque(vec(u8())),
            vec(sized_struct(tup(i32(), string()), 32)), vec(sized_struct(tup(u16(), u8(), pair=True), 4))]
def arrays():
    return [arr(3, u8()), arr(4, u16()), arr(2, u64()), arr(3, string()), arr(2, arr(2, i32())), arr(2, u16(), c=True),
            arr(3, b('char'), c=True), arr(2, vec(u8())), arr(2, bulkagg()), arr(2, padagg()), arr(1, u(4, 'float'))]
def assocs():
    return [sett('set', i32()), sett('set', string()), sett('multiset', u16()), sett('unordered_set', u32()),
            sett('unordered_multiset', u8()), sett('set', vec(u8())), sett('set', arr(2, u8())),
            mapp('map', i32(), string()), mapp('map', string(), vec(u16())), mapp('multimap', u8(), u64()),
            mapp('unordered_map', u16(), string()), mapp('unordered_multimap', u8(), u8()),
            mapp('map', u8(), mapp('map', u8(), u16())), mapp('unordered_map', string(), opt(i32())),
            mapp('map', u16(), padagg()), sett('unordered_set', string()), sett('set', tup(u8(), u16(), pair=True))]
def tuples():
    return [tup(i32()), tup(u8(), u64()), tup(string(), i32(), vec(u16())), tup(u16(), u16(), pair=True),
            tup(string(), opt(u8()), pair=True), tup(tup(u8(), u16()), arr(2, u8())),
            tup(u8(), u8(), u8(), u8(), u8(), u8(), u8())]
def optionals():
    return [opt(u8()), opt(u64()), opt(string()), opt(vec(u16())), opt(opt(u8())), opt(padagg()), opt(mixagg()),
            vec(sized_struct(opt(u16()), 4)), vec(sized_struct(opt(string()), 32)), optptr(i32()), optptr(string()),
            vec(optptr(u8())), opt(arr(2, u16())), opt(tup(u8(), string())), opt(mapp('map', u8(), u8()))]
def pointers():
    return [ptr('unique', i32()), ptr('unique', string()), ptr('shared', u16()), ptr('shared', mixagg()),
            vec(sized_struct(ptr('unique', u8(), 0), 8)), ptr('unique', vec(u16())), opt(ptr('unique', u8(), .2)),
            ptr('shared', ptr('shared', u8())), vec(sized_struct(ptr('shared', padagg(), .05), 16))]
def variants():
    return [variant(u8(), u32()), variant(i32(), string(), vec(u16())), variant(T('std::monostate', {'k': 'empty'}, lambda r: [], [], 1), string()),
            vec(sized_struct(variant(u8(), u16()), 4 + 4)), opt(variant(string(), u8())), variant(padagg(), mixagg(), opt(u8())),
            variant(variant(u8(), u16()), string()), variant(T('std::monostate', {'k': 'empty'}, lambda r: [], [], 1), u64(), arr(2, u8()))]
def bitsets(): return [bits(n) for n in (1, 7, 8, 9, 16, 17, 31, 32, 33, 64, 65, 100)]
def varints():
    r = []
    for n, w in ((2, 'uint16_t'), (4, 'uint32_t'), (8, 'uint64_t')):
        r.append(var(n, f'zpp::bits::varint<std::{w}>', 0))
        r.append(var(n, f'zpp::bits::varint<std::{w[1:]}>', 0))
        r.append(var(n, f'zpp::bits::varint<std::{w[1:]}, zpp::bits::varint_encoding::zig_zag>', 1))
    return r
def aggs():
    return [vec(sized_struct(agg([]), 1)), arr(2, agg([])), opt(agg([])), mixagg(), bulkagg(), padagg(), agg([]), agg([u8()]), agg([mixagg(), vec(bulkagg()), opt(u16())]),
            agg([arr(2, u16(), c=True), u8()]), agg([string()], 'in'), agg([u16(), u64()], 'ser'),
            agg([u8(), vec(u8())], 'priv'), agg([tup(u8(), u16()), bits(9)]), agg([mixagg('out'), agg([])])]

def allpool():
    return (scalars() + wide() + containers() + arrays() + assocs() + tuples() + optionals() + pointers() +
            variants() + bitsets() + varints() + aggs())

def spread(items, n=8):
    """deal out, so that the parts cost about the same"""
    return [x for i in range(n) for x in items[i::n]]

def each(r, calls, cfg, per, fn, **k):
    """per sessions aimed at every call"""
    out = []
    for p in calls:
        for _ in range(per):
            s = fn(r, calls, cfg, pick=p, **k)
            if s['ev']: out.append(s)
    return out

PLANS, NOTES, TECH, WHYNOT = {}, {}, {}, {}
LITS = 'using namespace zpp::bits::literals;'
def plan(f):
    PLANS[f.__name__] = f
    return f


@plan
def C01(run):
    calls = spread([Call(t) for t in allpool()])
    cfgs = [grow(), grow('std::string', be=1, sz='2'), fixed('span', be=0, sz='v')]
    n = scale(run, 4, 40)
    def g(r, cs, c): return each(r, cs, c, n, lambda r, cs, c, pick: G.roundtrip(r, cs, c, r.choice([1, 2, 3]), pick))
    run.run_suites([Suite('all', calls, cfgs, g)])

def pods(r, n):
    """random plain structures: with and without padding, empty members, arrays and structures inside"""
    def scalar():
        k = r.choice([1, 1, 1, 2, 2, 4, 8])
        if k == 1: return r.choice([u8, lambda: b('char'), lambda: b('std::byte'), lambda: b('signed char'), boolean, lambda: enum(1, 'unsigned char')])(), 1, 1
        return r.choice([lambda: u(k, {2: 'std::uint16_t', 4: 'std::uint32_t', 8: 'std::uint64_t'}[k]), lambda: enum(k, {2: 'short', 4: 'int', 8: 'long long'}[k]),
                         lambda: u(k, {2: 'char16_t', 4: 'float', 8: 'double'}[k])])(), k, k
    def one(depth):
        x = r.random()
        if depth and x < .25: return struct(depth - 1)
        if depth and x < .45:
            t, s, a = one(depth - 1); k = r.choice([1, 2, 3])
            return arr(k, t, c=r.random() < .3), k * s, a
        if x < .52: return agg([], 'auto'), 1, 1
        if x < .57: return var(4, 'zpp::bits::vuint32_t', 0), 4, 4
        return scalar()
    def struct(depth):
        small = r.random() < .4         # mostly structures without padding
        ts = [(scalar() if r.random() < .7 else one(depth)) if small and (i or 1) else one(depth) for i in range(r.randrange(1, 6))]
        if small and r.random() < .6: ts = [x for x in ts if x[2] == 1] or [(u8(), 1, 1)]
        off = 0; al = max(a for _, _, a in ts)
        for _, s, a in ts: off = -(-off // a) * a + s
        t = agg([t for t, _, _ in ts], r.choice(['auto', 'in', 'in', 'out', 'ser', 'priv', 'ctor', 'serout']))
        return sized_struct(t, -(-off // al) * al), t.size, al
    return [struct(2)[0] for _ in range(n)]
def podcalls(rnd, n, **k):
    return [Call(x, **k) for t in pods(rnd, n) for x in (t, rnd.choice([vec, lambda t: arr(3, t), lambda t: arr(2, t, c=True), deque, opt])(t))]

# ------------------------------------------------------------ protobuf pool
def vi32_key(): return u(4, 'int')
def vi32(): return var(4, 'zpp::bits::vint32_t', 0)
def vi64(): return var(8, 'zpp::bits::vint64_t', 0)
def vu32(): return var(4, 'zpp::bits::vuint32_t', 0)
def vu64(): return var(8, 'zpp::bits::vuint64_t', 0)
def vs32(): return var(4, 'zpp::bits::vsint32_t', 1)
def vs64(): return var(8, 'zpp::bits::vsint64_t', 1)
def messages():
    ex = pb([vi32()])
    return [ex, pb([ex], 'out'), pb([reserved(), vi32(), vs32()]), pb([(vi32(), 20), (vs32(), 30)], 'field'),
            pb([(vi32(), 20), (vs32(), 30)], 'map'), pb([u32(), u64(), u(4, 'float'), u(8, 'double')]),
            pb([vec(vi32()), string(), vec(ex)]), pb([boolean(), enum(4, 'int'), vu64(), vs64()], 'members'),
            pb([string(), vec(b('std::byte')), vec(u8())], 'full'), pb([vec(u32()), vec(u(8, 'double')), vec(vs64())]),
            pb([vec(enum(4, 'int')), vec(string()), lst(vu32())]),
            pb([mapp('map', vi32_key(), string()), mapp('unordered_map', string(), vi32())]),
            pb([mapp('map', string(), ex), mapp('map', u32(), boolean()), enum(1, 'unsigned char')]),
            pb([(string(), 1), (u32(), 16), (vec(vu32()), 2047), (ex, 2048), (vi64(), 100000)], 'mapn'),
            pb([(string(), 3), (vec(u64()), 15), (enum(4, 'int'), 16), (u(8, 'double'), 4)], 'field'),
            pb([reserved(), string(), reserved(), pb([vec(pb([string(), vi32()])), reserved(), u32()], 'out')], 'members2'),
            pb([vi32(), u32(), string(), boolean()], 'in', inits={0: ('77', [77, 0, 0, 0]), 1: ('5', [5, 0, 0, 0]), 2: ('"ab"', [97, 98]), 3: ('true', 1)}),
            pb([sett('set', string()), deque(u32()), deque(string()), mapp('multimap', u32(), vu32())]),
            pb([vi32(), vi32(), (vi32(), 9)], 'mix'),
            pb([vec(enum(8, 'unsigned long long')), enum(8, 'unsigned long long'), vec(enum(2, 'unsigned short')), lst(enum(1, 'unsigned char')), vec(enum(4, 'unsigned int', 0))])]


# ------------------------------------- behaviours the specification enumerates
def xcalls():
    """small calls: one and two bytes, a count with its elements, one that fails half way, two items, three with a bad one"""
    nul = lambda: ptr('unique', u8())
    return [Call(u8()), Call(u16()), Call(sized(vec(u8()), '1')), Call(tup(u8(), nul())), Call(u8(), u16()), Call(u8(), nul(), u8()), Call(opt(u16())), Call(sized(string(), 'v'), u8())]
def xops(n, which='wrs'):
    o = []
    if 'w' in which: o += [G.W(0, [1]), G.W(0, [2]), G.W(1, [[2, 1]]), G.W(2, [[2]]), G.W(3, [[1, []]])]
    if 'm' in which: o += [G.W(4, [1, [2, 1]]), G.W(5, [1, [], 2]), G.W(5, [2, [1], 1]), G.W(6, [[]]), G.W(6, [[[1, 2]]]), G.W(7, [[1], 2])]
    if 'r' in which: o += [G.R(0, [9]), G.R(1, [[9, 9]]), G.R(2, [[9]])]
    if 'M' in which: o += [G.R(4, [9, [9, 9]]), G.R(5, [9, [9], 9]), G.R(6, [[]]), G.R(6, [[[7, 7]]]), G.R(7, [[9, 9], 9])]
    if 's' in which: o += [G.S('out', 'reset0'), G.S('in', 'reset0'), G.S('out', 'set', 1), G.S('in', 'set', 2), G.S('out', 'add', 1), G.S('in', 'sub', 1)]
    if 'S' in which: o += X.seeks('out', n) + X.seeks('in', n)
    if 'p' in which: o += [{'o': 'poke', 'n': 1, 'd': [1]}]
    if 'q' in which: o += [G.Q]
    return o
def xworld(name, cfg, n, which, b0=(), **kw):
    ops = xops(n, which)
    after = [i for i, e in enumerate(ops) if e['o'] in 'wr' and e['t'] in (0, 1)] + [i for i, e in enumerate(ops) if e['o'] == 'q']
    return X.World(name, xcalls(), cfg, ops, after, n, list(b0), **kw)

def sess(fn, n, **k):
    """plan part: n sessions per call"""
    return lambda r, cs, c: each(r, cs, c, n, fn, **k)
def flat(fn, n=1, **k):
    """plan part: fn gives a list of sessions per call"""
    return lambda r, cs, c: [s for p in cs for _ in range(n) for s in fn(r, cs, c, p, **k)]
def rt(r, cs, c, pick):
    k = 1 if c.rec['sz'] == '0' else r.choice([1, 2, 3])
    return G.roundtrip(r, cs, c, k, pick)

def keyable(t): return t.f.get('key') and t.size

@plan
def C01(run):
    calls = spread([Call(t) for t in allpool()])
    cfgs = [grow(), grow('std::string', be=1, sz='2'), fixed('span', be=0, sz='v')]
    X.laws(run, allpool() + idvariants(), [(0, '1', 40), (1, 'v', 40)], scale(run, 5, 30), 0)
    run.run_suites([Suite('all', calls, cfgs, sess(rt, scale(run, 4, 40)))])

@plan
def C02(run):
    calls = spread([Call(t, r=False, rv=True) for t in allpool()])
    cfgs = [grow(), grow('std::vector<unsigned char>', be=1, sz='2'), grow('std::string', sz='v'),
            grow('std::vector<char>', be=0, sz='8'), grow('vf::tracked<std::byte>', be=1, sz='1', copts=[('append', 0)]),
            fixed('span', 'std::byte'), fixed('span', 'unsigned char', be=1, sz='8'),
            fixed('array', 'char', 64, sz='1'), fixed('carray', 'std::byte', 40, be=1), grow('std::basic_string<unsigned char>' if 0 else 'std::string', be=1, fit=0)]
    for c in cfgs: c.has_in = False
    pc = [grow(), fixed('span', 'char', be=1)]
    for c in pc: c.has_in = False
    run.run_suites([Suite('w', calls, cfgs, sess(G.writes, scale(run, 3, 20))),
                    Suite('p', podcalls(random.Random(f'{run.seed}/pods'), scale(run, 40, 160), r=False), pc, sess(G.writes, 3), tus=4)])

@plan
def C03(run):
    pool = [Call(t, w=False) for t in allpool()] + [Call(t, w=False) for t in messages()]
    calls = spread(pool)
    cfgs = [source(ilim=64), source('std::span<const unsigned char>', be=1, sz='1', ilim=40, byte='unsigned char'),
            source('std::vector', sz='8', ilim=100), source('std::string_view', sz='v', ilim=64, byte='char', form='input')]
    def g(r, cs, c):
        out = []
        for p in cs:
            for _ in range(scale(run, 8, 60)):
                s = G.hostile(r, cs, c, p)
                if s['ev']: out.append(s)
            for _ in range(scale(run, 1, 5)): out += G.prefixes(r, cs, c, p, 14)
            out += G.lies(r, cs, c, p, scale(run, 12, 90) if p[1].host else 60)
            if c is cfgs[1] or c is cfgs[3]: out += G.alphabet(r, cs, c, p, scale(run, 2, 4), (0, 1, 2, 0x80, 0xff))
        return out
    def v(byte, cfg): return Suite('v' + byte[:1] + byte[-1:], [Call(t, w=False) for t in views(byte) + mspans()] +
                                   [Call(sized(t, x), w=False) for t in views(byte)[:1] + views(byte)[3:] for x in '0128v'] +
                                   [Call(sized(t, x), w=False) for t in mspans() for x in '8v'], cfg if isinstance(cfg, list) else [cfg], g, tus=2)
    X.laws(run, allpool(), [(0, '1', 40), (1, 'v', 7)], 1, 2 if run.tier == 'quick' else 4)
    run.run_suites([Suite('in', calls, cfgs, g), v('std::byte', [source(ilim=64), source(sz='8')]),
                    v('char', source('std::string_view', sz='2', be=1, byte='char', ilim=64)),
                    v('unsigned char', source('std::span<const unsigned char>', sz='v', byte='unsigned char', ilim=64)),
                    Suite('bool', [Call(boolean(), w=False)], [source(ilim=64)], lambda r, cs, c: [{'buf': [2], 'ev': [G.R(cs[0][0], [0])]}], tus=1)])
    for t in run.traces:
        if t['ev'][0].get('b') == [2] and t['ev'][1].get('er') == 'ok' and t['ev'][1].get('nv') not in ([0], [1]):
            run.known_finding('bool-byte-2', 'reading a bool from the byte 2 succeeds and leaves a bool that is neither true nor false'); break

@plan
def C04(run):
    calls = spread([Call(t, r=False) for t in allpool() + messages()])
    cfgs = [fixed('span'), fixed('span', 'char', be=1, sz='v'), fixed('array', 'unsigned char', 33, sz='1'),
            fixed('carray', 'char', 16, be=1, sz='2'), fixed('sspan', 'std::byte', 24), fixed('array', 'std::byte', 9, form='io')]
    long_ = [fixed('span', sz='v'), fixed('span', 'char', be=1, sz='0')]
    m = scale(run, 3, 4)
    xs = X.suites(run, [xworld('f', fixed('span', 'char'), m, 'wms', [7] * m), xworld('a', fixed('array', 'std::byte', 4), 4, 'wm', [7] * 4), xworld('c', fixed('carray', 'unsigned char', 2), 2, 'wms', [7] * 2)])
    run.run_suites(xs + [Suite('out', calls, cfgs, flat(G.capacities, scale(run, 1, 6), most=14)),
                    Suite('long', [Call(t, r=False) for t in longmessages()], long_, flat(G.capacities, scale(run, 6, 20), most=16), tus=4)])

def growpool():
    return [u8(), u16(), u64(), string(), vec(u16()), vec(string()), arr(3, u32()), arr(5, u8()), vu64(), vs32(), bits(20),
            mixagg(), bulkagg(), opt(string()), mapp('map', u8(), string()), variant(u8(), string()), tup(u8(), u64()),
            lst(u16()), deque(u8()), vec(vu32()), ptr('unique', string()), messages()[8], messages()[15], messages()[2]]
@plan
def C05(run):
    calls = spread([Call(t) for t in growpool()])
    tr = 'vf::tracked<std::byte>'
    cfgs = [grow(tr), grow(tr, M=1, D=1), grow(tr, M=2, D=1), grow(tr, M=5, D=4, sz='v'), grow(tr, M=4, D=3, be=1),
            grow(tr, fit=0), grow(tr, fit=0, M=2, D=1), grow(tr, copts=[('append', 0)]), grow(tr, copts=[('reserve', 40)]),
            grow(tr, copts=[('resize', 10)]), grow(tr, copts=[('resize', 6), ('append', 0)]), grow(tr, copts=[('append', 0), ('resize', 5)]),
            grow(tr, copts=[('append', 0), ('reserve', 9), ('resize', 30)], fit=0, M=1, D=1), grow('std::vector<unsigned char>', M=3, D=1),
            grow('std::string', copts=[('append', 0)], be=1), grow('vf::tracked<char>', olim=10 ** 6, form='io')]
    n = scale(run, 3, 25); m = scale(run, 3, 4)
    xs = X.suites(run, [xworld('g', grow(tr), m, 'wrsp'), xworld('a', grow(tr, copts=[('append', 0)], M=1, D=1) , m, 'wrs', b0=[]), xworld('n', grow(tr, fit=0, M=2, D=1), m, 'wrs'),
                        xworld('v', grow('std::vector<char>'), m, 'mrs')])
    run.run_suites(xs + [Suite('g', calls, cfgs, lambda r, cs, c: each(r, cs, c, n, lambda r, cs, c, pick: (G.overwrite if r.random() < .55 else rt2)(r, cs, c, pick=pick)))])
def rt2(r, cs, c, pick): return G.roundtrip(r, cs, c, r.choice([1, 2, 3]), pick)

# ------------------------------------------------------------------- views
def views(byte):
    """views of the bytes of an archive over byte"""
    r = [view(f'std::span<const {byte}>'), fview(byte, 3), fview(byte, 1)]
    if byte == 'char': r.append(view('std::string_view'))
    return r
def mspans(): return [mspan(u8()), mspan(b('char')), mspan(u16()), mspan(u32()), mspan(string()), mspan(padagg())]

@plan
def C06(run):
    tr = 'vf::tracked<std::byte>'
    U = seq('std::vector<unsigned char>', b('unsigned char'))
    exactc = Call(unsized_item(U), r=False)
    pool = [u8(), u16(), u64(), string(), vec(u16()), arr(3, u32()), arr(7, u8()), vu64(), bits(33), mixagg(), vec(string()),
            opt(u32()), mapp('map', u8(), u16()), lst(u16()), messages()[2], messages()[15], messages()[8], vec(vu32()), variant(u8(), string())]
    calls = [exactc] + [Call(t, r=False) for t in pool]
    cfgs = []
    for L in (0, 1, 7, 16, 30, 64, 90):
        cfgs.append(grow(tr, olim=L, sz='v' if L == 16 else None))
        cfgs.append(grow(tr, olim=L, M=1, D=1, be=1 if L == 7 else None))
        if L in (7, 30, 64): cfgs.append(grow(tr, olim=L, M=2, D=1, copts=[('append', 0)]))
        if L in (16, 64): cfgs.append(grow(tr, olim=L, M=4, D=3, fit=0)); cfgs.append(grow(tr, olim=L, copts=[('resize', 12)]))
    cfgs.append(grow('std::vector<unsigned char>', olim=20)); cfgs.append(grow('std::string', olim=33, M=1, D=1))
    for c in cfgs: c.has_in = False
    n = scale(run, 60, 500)
    def g(r, cs, c):
        i = cs[0][0]
        def exact(r, n): return i, [[r.randrange(256) for _ in range(n)]], n
        return [s for s in (G.around_limit(r, cs, c, exact) for _ in range(n)) if s['ev']]
    xs = []
    for k, c in enumerate([grow(tr, olim=3), grow(tr, olim=5, M=1, D=1), grow(tr, olim=24), grow('std::vector<unsigned char>', olim=2, M=1, D=1), grow(tr, olim=4, fit=0)]):
        xs.append(xworld(f'{k}', c, scale(run, 3, 4), 'wrs' if k else 'wmrs'))
    # the first call of every part makes items of exact sizes
    run.run_suites(X.suites(run, xs) + [Suite(f'l{k}', [exactc] + [Call(t, r=False) for t in pool[k::6]], cfgs, g, tus=1) for k in range(6)])
    overflow(run)

def overflow(run):
    """buffers nearly as long as a word can count"""
    st, di = design('GrowthDesign', run.work); run.cov['states'] += di; run.cov['transitions'] += st
    top = 2 ** 64
    progs = []
    for k, (M, D, lim, fit) in enumerate([(3, 2, None, 1), (1, 1, None, 1), (2, 1, None, 0), (4, 3, top - 40, 1), (1, 1, top - 9, 1), (7, 5, None, 1), (3, 1, 2 ** 63, 0), (1, 1, None, 0), (3, 2, top // 2, 1)]):
        r = random.Random(f'{run.seed}/ovf/{k}')
        edges = [0, 1, 40, top - 1, top // M, top // M * D, 2 ** 63, 2 ** 32, lim or top - 1, (lim or top) * D // M, top // 3, top // 2 * D]
        ls = []
        for _ in range(scale(run, 700, 8000)):
            s = min(top - 1, max(0, r.choice(edges) + r.choice([0, -1, 1, -r.randrange(40), r.randrange(40)])))
            if r.random() < .1: s = r.getrandbits(64)
            ls.append(f'{s} {max(0, s - r.choice([0, 0, 1, 2, 3, 5, 8, 31, 32, r.randrange(64)]))} {r.randrange(9)}')
        o = []
        if (M, D) != (3, 2): o.append(f'zpp::bits::enlarger<{M}, {D}>{{}}' if (M, D) != (1, 1) else 'zpp::bits::exact_enlarger{}')
        if lim is not None: o.append(f'zpp::bits::alloc_limit<{lim}ull>{{}}')
        if not fit: o.append('zpp::bits::no_fit_size{}')
        r.shuffle(o)
        mk = f'[](auto & b) {{ return zpp::bits::out({", ".join(["b"] + o)}); }}'
        progs.append((f'ovf{k}', fn_main(f'ovf::all({{{M}, {D}, {fit}, {(lim if lim is not None else top - 1)}ull}}, {mk}, in);').replace('fn.hpp', 'ovf.hpp'), '\n'.join(ls), ['-fno-sanitize=pointer-overflow']))
    run.run_programs(progs, 'GrowthTrace')

def limpool():
    return [vec(u8()), vec(u16()), vec(u64()), string(), u16string(), wstring(), deque(u16()), lst(u32()), vec(string()), vec(vec(u16())),
            vec(padagg()), vec(bulkagg()), arr(2, vec(u16())), opt(vec(u32())), mapp('map', u8(), vec(u16())), sett('set', string()),
            mapp('unordered_map', string(), string()), tup(u8(), vec(u32()), string()), agg([vec(u16()), string()]), variant(u8(), vec(u32())),
            ptr('unique', vec(u64())), vec(sized_struct(opt(u16()), 4)), vec(arr(2, u16())), vec(vu32()), vec(boolean_byte()), deque(vec(u8()))]
def boolean_byte(): return b('signed char')
@plan
def C07(run):
    calls = spread([Call(t, w=False) for t in limpool() + messages()] +
                   [Call(sized(t, s), w=False) for t, s in zip([vec(u8()), string(), vec(u16()), deque(u32()), vec(string()), vec(padagg())], '1248v8')])
    cfgs = [source(ilim=L, sz=s, be=e) for L, s, e in ((0, None, None), (1, '1', None), (7, '2', 1), (8, '8', None), (16, 'v', None), (64, None, 1), (31, '8', 1), (24, '2', None))]
    n = scale(run, 14, 150)
    run.run_suites([Suite('in', calls, cfgs, lambda r, cs, c: each(r, cs, c, n, limited))])
def limited(r, calls, cfg, pick):
    """counts at and around the limit, with or without the data they announce"""
    if r.random() < .35: return G.hostile(r, calls, cfg, pick)
    i, c = pick; v = c.gen(r)
    L = cfg.rec['ilim']
    def stretch(d, x):
        """containers of just about the size of the limit"""
        k = d['k']
        if k == 'seq' and r.random() < .6:
            n = max(0, L // d['es'] + r.choice([0, 0, 1, -1, 2]))
            if not x: x = [Dflt(d['t'])]
            x = [stretch(d['t'], copy.deepcopy(x[j % len(x)])) for j in range(min(n, 70))]
            return x
        if k in ('seq', 'arr'): return [stretch(d['t'], y) for y in x]
        if k == 'tup': return [stretch(t, y) for t, y in zip(d['ts'], x)]
        if k in ('opt', 'ptr'): return [stretch(d['t'], y) for y in x]
        if k == 'map': return [stretch(d['t'], y) for y in x]
        if k == 'pb':
            return [([y for _ in range(40) for y in z][:max(0, L // (f['t'].get('n', 1) if f['k'] != 'rvar' else 4) + r.choice([0, 1, -1]))]
                     if f['k'] in ('str', 'rfix', 'rvar', 'renum') and z and not f['bag'] else z) for f, z in zip(d['fs'], x)]
        return x
    v = [stretch(it.d, x) for it, x in zip(c.items, v)]
    lie = r.random() < .25
    data = []
    try:
        for it, x in zip(c.items, v):
            data += G.evil_enc(it.d, x, cfg.eo, r, .4, L) if lie else enc(it.d, x, cfg.eo)
    except Bad: data = data or [1, 0]
    return {'buf': data, 'ev': [G.R(i, G.old_for(c, c.gen(r), cfg, r), r)]}
def Dflt(d):
    k = d['k']
    return {'b': 0, 'bool': 0, 'u': [0] * d.get('n', 0), 'var': [0] * d.get('n', 0), 'seq': [], 'set': [], 'map': [], 'opt': [], 'ptr': []}.get(k) if k in (
        'b', 'bool', 'u', 'var', 'seq', 'set', 'map', 'opt', 'ptr') else [Dflt(x) for x in d.get('ts', [d.get('t')] * d.get('n', 0))]

# ----------------------------------------------------------------- varints
def edges(n, z):
    """boundary values of a varint of n bytes"""
    w = 8 * n; s = set()
    for k in range(0, w + 1):
        for d in (-1, 0, 1): s.add(((1 << k) + d) % (1 << w))
    for k in (7, 14, 21, 28, 35, 42, 49, 56, 63):
        for d in (-2, -1, 0, 1):
            x = (1 << k) + d
            for y in (x, -x, x >> 1, -(x >> 1)): s.add(y % (1 << w))
    return sorted(s)
def raw_varints(r, n):
    """encodings: legal, padded, truncated, too long"""
    m = n * 8 // 7 + 1
    x = r.random()
    if x < .3: L = r.choice([m - 1, m, m + 1, m + 2, 12, 1, 2])
    else: L = r.randrange(1, m + 2)
    bs = [r.choice([0x80, 0xff, 0x81, 0x80 | r.randrange(128)]) for _ in range(L)]
    if r.random() < .75: bs[-1] = r.choice([0, 1, 1, 0x7f, 2, 3, r.randrange(128)])
    return bs
@plan
def C08(run):
    vs = varints() + [var(n, f'zpp::bits::varint<std::{t}>', 0) for n, t in ((1, 'uint8_t'),)] * 0
    seqs = [vec(v) for v in vs] + [arr(3, vs[0]), arr(3, vs[8]), agg([vs[3], u8(), vs[5]]), opt(vs[8]), mapp('map', u8(), vs[7]), vec(var(8, 'zpp::bits::vsize_t', 0)),
            tup(vs[1], vs[4], vs[7]), deque(vs[2]), lst(vs[6]), var(8, 'zpp::bits::vsize_t', 0)]
    one = [Call(t) for t in vs]; more = [Call(t) for t in seqs]
    def g(r, cs, c):
        out = []
        for i, call in cs:
            d = call.items[0].d
            if d['k'] == 'var':
                n, z = d['n'], d['z']; w = (n * 8 + 6) // 7
                es = edges(n, z) + [r.getrandbits(8 * n) for _ in range(scale(run, 10, 300))]
                for k in range(0, len(es), 6):
                    vals = [list(x.to_bytes(n, 'little')) for x in es[k:k + 6]]
                    if c.rec['kind'] == 'grow':
                        out.append({'buf': G.garbage(r, r.choice([0, 0, 3])), 'ev': [G.W(i, [v], r, call) for v in vals] + [G.R(i, [vals[0]], r) for v in vals]})
                    else:      # with as much room as each needs, or one byte less
                        tot = sum(len(enc(d, v, c.eo)) for v in vals)
                        out.append({'buf': G.garbage(r, tot + r.choice([0, 0, -1, 1, 9])), 'ev': [G.W(i, [v], r, call) for v in vals] + [G.R(i, [vals[0]], r) for v in vals]})
                for _ in range(scale(run, 40, 600)):
                    bs = raw_varints(r, n); tail = G.garbage(r, r.choice([0, 0, 1, 5, 12])); st = r.choice([0, 0, 1])
                    out.append({'buf': G.garbage(r, st) + bs + tail, 'ev': ([G.S('in', 'set', st)] if st else []) + [G.R(i, call.gen(r), r)]})
            else:
                for _ in range(scale(run, 12, 100)): out.append(rt2(r, cs, c, (i, call)))
                if c.rec['ilim'] >= 0 or not call.host:
                    for _ in range(scale(run, 6, 50)): out.append(G.hostile(r, cs, c, (i, call)))
        return [s for s in out if s['ev']]
    cfgs = [grow(ilim=512), grow('std::string', be=1, sz='v', ilim=512), fixed('span', 'unsigned char', be=1), fixed('span', 'char', sz='v', ilim=100)]
    st = [Suite('v', one + more, cfgs, g)]
    varint_sizes(run)
    st.append(Suite('inl', one, [grow(), fixed('span', 'char')], g, tus=2, flags=['-DZPP_BITS_INLINE_DECODE_VARINT=1']))
    X.laws(run, vs, [(0, '1', -1)], scale(run, 30, 300), 4 if run.tier == 'quick' else 6, (0, 1, 3, 127, 128, 129, 255))
    run.run_suites(st)

@plan
def C09(run):
    ids = idvariants()
    pool = allpool() + ids + messages()
    calls = spread([Call(t) for t in pool] + [Call(sized(t, x)) for t, x in zip([vec(u16()), string(), vec(u8()), messages()[6], messages()[0]], '28v48')])
    cfgs = [grow(be=1), grow('std::string', be='network', sz='2'), fixed('span', be='swapped', sz='8'), grow(be='native'), grow(be='little' if 0 else 0, sz='2'), fixed('span', 'char', be=1, sz='v')]
    run.run_suites([Suite('e', calls, cfgs, sess(rt, scale(run, 3, 20)), extra=LITS)])

# ---------------------------------------------------------------- variants
def idagg(ts, idexpr, style='in'):
    if style == 'out': return agg(ts, 'out', extra=f'\nauto serialize_id(const @ &) -> {idexpr};')
    return agg(ts, style, extra=f'    using serialize_id = {idexpr};\n')
ID = 'zpp::bits::id'
def idvariants():
    """variants whose alternatives declare ids: integral of 1, 2, 4, 8 bytes, strings, hashes"""
    le = lambda x, n: list(x.to_bytes(n, 'little'))
    r = []
    r.append(variant(idagg([u8()], f'{ID}<std::uint32_t(0x01020304)>'), idagg([string()], f'{ID}<std::uint32_t(0xfffefdfc)>'),
                     idagg([], f'{ID}<std::uint32_t(7)>', 'out'), ids=[le(0x01020304, 4), le(0xfffefdfc, 4), le(7, 4)], idk='u'))
    r.append(variant(idagg([u16()], f'{ID}<std::uint16_t(0x0201)>'), idagg([vec(u16())], f'{ID}<std::uint16_t(0x0102)>', 'out'),
                     ids=[le(0x201, 2), le(0x102, 2)], idk='u'))
    r.append(variant(idagg([u8()], f'{ID}<std::uint64_t(0x0102030405060708)>'), idagg([u64()], f'{ID}<std::uint64_t(0x0807060504030201)>'),
                     ids=[le(0x0102030405060708, 8), le(0x0807060504030201, 8)], idk='u'))
    r.append(variant(idagg([u8()], f'{ID}<std::byte(9)>'), idagg([u16()], f'{ID}<std::byte(200)>', 'out'), string(), ids=[[9], [200], [2]]))
    r.append(variant(idagg([u8(), u8()], f'{ID}<"v1::t"_s>'), idagg([u8(), string()], f'{ID}<"v2::t"_s>'), ids=[list(b'v1::t'), list(b'v2::t')]))
    r.append(variant(idagg([u8()], f'{ID}<"abcd"_s>'), idagg([u16()], f'{ID}<"dcba"_s>'), ids=[list(b'abcd'), list(b'dcba')], idk='u'))
    r.append(variant(idagg([u8()], f'{ID}<"one"_sha256, 4>'), idagg([string()], f'{ID}<"two"_sha256, 4>', 'out'),
                     ids=[list(hashlib.sha256(b'one').digest()[:4]), list(hashlib.sha256(b'two').digest()[:4])], idk='u'))
    r.append(variant(idagg([u8()], f'{ID}<"one"_sha1, 6>'), idagg([string()], f'{ID}<"two"_sha1, 6>'),
                     ids=[list(hashlib.sha1(b'one').digest()[:6]), list(hashlib.sha1(b'two').digest()[:6])]))
    return r
@plan
def C10(run):
    mono = lambda: T('std::monostate', {'k': 'empty'}, lambda r: [], [], 1)
    vs = idvariants()
    plain = variants() + [variant(string(), i32(), null=.25), variant(vec(u8()), u16(), i32(), null=.2), variant(u16(), pctor([u8(), string()])),
             variant(u8(), u8(), cpp=None) if 0 else variant(u8(), pctor([u16()])), variant(*[agg([u8()] * (k % 3)) for k in range(7)])]
    calls = [Call(t) for t in plain + vs] + [Call(vec(sized_struct(variant(u8(), u16()), 8))), Call(opt(vs[0])), Call(mapp('map', u8(), vs[3])),
             Call(agg([vs[5], u8()], 'in')), Call(ptr('unique', vs[4])), Call(vs[0], vs[3], u8())]
    v = vs[0]
    for i, x in ((0, 'std::uint32_t(0x01020304)'), (1, 'std::uint32_t(0xfffefdfc)'), (2, 'std::uint32_t(7)')):
        calls.append(Call(known(v, i, x)))
        calls.append(Call(known(v, i, x, dynamic=True), w=False))
    for x in ('std::uint32_t(0)', 'std::uint32_t(0x04030201)', 'std::uint32_t(6)'): calls.append(Call(known(v, -1, x, dynamic=True), w=False))
    calls += [Call(known(vs[4], 0, '"v1::t"_s')), Call(known(vs[4], 1, '"v2::t"_s')), Call(known(vs[6], 1, '"two"_sha256, 4')), Call(known(vs[2], 1, 'std::uint64_t(0x0807060504030201)')),
              Call(known(vs[1], 0, 'std::uint16_t(0x0201)', dynamic=True), w=False), Call(known(vs[1], -1, 'std::uint16_t(0x0301)', dynamic=True), w=False),
              Call(known(plain[1], 2, 'std::byte(2)')), Call(known(plain[1], 1, 'std::byte(1)', dynamic=True), w=False), Call(known(plain[1], -1, 'std::byte(3)', dynamic=True), w=False),
              Call(known(vs[3], 2, 'std::byte(2)')), Call(u8(), known(v, 1, 'std::uint32_t(0xfffefdfc)'), u16()), Call(known(pv(), 1, 'std::byte(1)')), Call(known(pv(), 1, 'std::byte(1)', dynamic=True), w=False)]
    calls = spread(calls)
    cfgs = [grow(ilim=4096), grow('std::string', be=1, sz='1', ilim=4096), fixed('span', 'unsigned char', sz='2', ilim=100), fixed('span', 'char', be=1, ilim=64)]
    n = scale(run, 6, 60)
    def g(r, cs, c):
        out = []
        for p in cs:
            for _ in range(n):
                if p[1].w: out.append(G.roundtrip(r, cs, c, 1 if r.random() < .5 else 2, p))
                out.append(idbytes(r, cs, c, p))
            out += G.prefixes(r, cs, c, p, 10)
        return [s for s in out if s['ev']]
    run.run_suites([Suite('v', calls, cfgs, g, extra=LITS)])
def pv(): return variant(u16(), pctor([u8(), string()]))
def idbytes(r, calls, cfg, pick):
    """every way an id can be wrong"""
    i, c = pick; v = c.gen(r)
    data = G.enc_call(c, v, cfg)
    if data is None: data = [0] * r.randrange(6)
    data = list(data)
    if data and r.random() < .8:
        k = r.randrange(min(len(data), 8))
        data[k] = r.choice([0, 1, 2, 3, 7, 0xff, data[k] ^ 0x80, data[k] ^ 1, r.randrange(256)])
    if len(data) > 1 and r.random() < .15: data[:4] = data[:4][::-1]
    data += G.garbage(r, r.choice([0, 0, 4, 9]))
    return {'buf': data, 'ev': [G.R(i, G.old_for(c, c.gen(r), cfg, r), r)]}

@plan
def C11(run):
    ts = optionals() + pointers() + [opt(pctor([u8(), u16()])), opt(pctor([string()])), ptr('unique', pctor([u8(), vec(u8())])), ptr('shared', pctor([u16()])),
         optptr(vec(string())), optptr(mixagg()), vec(optptr(string())), mapp('map', u8(), ptr('unique', string(), 0)), variant(u8(), ptr('unique', string(), 0)),
         tup(ptr('unique', u8(), .1), opt(u8()), ptr('shared', u16(), .1)), agg([ptr('unique', u16(), .1), opt(string())], 'in'), opt(opt(string())), ptr('unique', opt(string())),
         arr(2, opt(u16())), opt(boolean()), optptr(optptr(u8())), agg([optptr(u8()), u8()])]
    calls = spread([Call(t) for t in ts] + [Call(ptr('shared', u32()), keep=True), Call(ptr('shared', string()), keep=True), Call(ptr('shared', agg([u8(), vec(u16())])), keep=True),
                    Call(ptr('shared', vec(u8())), keep=True), Call(ptr('unique', u8(), .2), opt(u8()), ptr('shared', string(), .2))])
    cfgs = [grow(ilim=4096), grow('std::string', be=1, sz='1', ilim=200), fixed('span', 'char', sz='2', ilim=64)]
    n = scale(run, 8, 80)
    def g(r, cs, c):
        out = []
        for p in cs:
            out += [G.roundtrip(r, cs, c, r.choice([1, 2]), p) for _ in range(n)]
            out += [s for s in (G.hostile(r, cs, c, p) for _ in range(n)) if s['ev']]
            out += G.prefixes(r, cs, c, p, 12)
        return [s for s in out if s['ev']]
    run.run_suites([Suite('p', calls, cfgs, g)])

@plan
def C12(run):
    def g(r, cs, c):
        out = []
        for p in cs:
            for _ in range(scale(run, 8, 80)):
                s = G.hostile(r, cs, c, p)
                if s['ev']: out.append(s)
            for _ in range(scale(run, 2, 10)): out += G.prefixes(r, cs, c, p, 14)
            out += G.lies(r, cs, c, p, scale(run, 24, 90))
            if c.has_out and p[1].w: out += [x for x in (G.roundtrip(r, cs, c, r.choice([1, 2]), p) for _ in range(scale(run, 6, 50))) if x['ev']]
        return out
    suites = []
    for nm, byte, cfgs in (('b', 'std::byte', [source(ilim=64), grow(sz='2', be=1, ilim=64), fixed('span', sz='v', ilim=64), fixed('array', 'std::byte', 24, sz='1', ilim=64)]),
                           ('c', 'char', [source('std::string_view', sz='2', be=1, byte='char', ilim=64), source('std::string', sz='8', ilim=64, byte='char'), grow('std::string', ilim=64), fixed('carray', 'char', 20, sz='v', be=1, ilim=64)]),
                           ('u', 'unsigned char', [source('std::span<const unsigned char>', sz='v', byte='unsigned char', ilim=64), grow('std::vector<unsigned char>', sz='1', be=1, ilim=64), fixed('span', 'unsigned char', sz='8', ilim=64)])):
        vs = views(byte)
        dyn = vs[:1] + vs[3:]
        ms = mspans() + [mspan(vec(u8())), mspan(arr(2, u16())), mspan(opt(u8())), mspan(vu32())]
        calls = [Call(t) for t in vs + ms] + [Call(sized(t, x)) for t in dyn for x in '01248v'] + [Call(sized(t, x)) for t in ms[:3] + ms[4:5] for x in '028v']
        calls += [Call(vec(dyn[0])), Call(opt(dyn[0])), Call(tup(u8(), dyn[0], u16())), Call(agg([dyn[-1], u8(), dyn[0]], 'in')), Call(u8(), vs[1], u16(), dyn[0]), Call(vs[1], vs[2]),
                  Call(mapp('map', u8(), dyn[0])), Call(u16(), sized(dyn[0], '0')), Call(variant(dyn[0], u8())), Call(ptr('unique', dyn[0])), Call(arr(2, dyn[0]))]
        if byte == 'char': calls.append(Call(mapp('map', T('std::string_view', dyn[1].d, lambda r: {'a': -1, 'd': [G1(r) for _ in range(r.randrange(4))]}, {'a': -1, 'd': []}, 16), u8()), w=False) if 0 else Call(vec(view('std::string_view'))))
        for c in calls:
            if any(x.t.d['k'] not in ('view', 'fview', 'spn') for x in c.items): pass
        suites.append(Suite(nm, spread(calls), cfgs, g, tus=3))
    run.run_suites(suites)

def mixed(r, n, pool):
    return [r.choice(pool) for _ in range(n)]
@plan
def C13(run):
    r = random.Random(f'{run.seed}/C13')
    pool = [u8(), u16(), u64(), boolean(), string(), vec(u16()), vec(string()), arr(3, u16()), opt(u8()), opt(string()), variant(u8(), string()), variant(string(), i32(), null=.3),
            ptr('unique', u16(), .25), ptr('shared', string(), .25), tup(u8(), u16()), mixagg(), padagg(), bits(9), vu32(), vs64(), mapp('map', u8(), string()), sett('set', u16()),
            lst(u8()), messages()[2], messages()[3], messages()[8], agg([ptr('unique', u8(), .2), u16()], 'in'), empty(), sized(vec(u8()), '1'), sized(string(), 'v'), idvariants()[0]]
    calls = [Call(*mixed(r, k, pool)) for k in (2, 2, 2, 3, 3, 3, 4, 4, 5, 6) for _ in range(scale(run, 4, 8))] + [Call(*mixed(r, 12, pool)), Call()]
    cfgs = [grow(ilim=512), grow('std::string', be=1, sz='1', ilim=512), fixed('span', 'unsigned char', ilim=200), fixed('span', 'char', be=1, sz='v', ilim=64)]
    n = scale(run, 12, 80); m = scale(run, 3, 4)
    xs = X.suites(run, [xworld('g', grow(), m, 'mrM'), xworld('f', fixed('span', 'char'), m, 'mrMs', [0] * m), xworld('c', fixed('carray', 'unsigned char', 4), 4, 'mM', [0, 0, 1, 1])])
    fc = [Call(t) for t in failing()] + [Call(t, u8()) for t in failing()[::3]]
    def fg(r, cs, c):
        return each(r, cs, c, n, G.many) + [s for p in cs for s in (G.hostile(r, cs, c, p) for _ in range(3)) if s['ev']]
    run.run_suites(xs + [Suite('m', calls, cfgs, lambda r, cs, c: each(r, cs, c, n, G.many), extra=LITS), Suite('e', fc, [cfgs[0], cfgs[3]], fg, extra=LITS, tus=4)])
def failing():
    """objects whose parts, at any place, cannot be written"""
    p = lambda q=.3, t=None: sized_struct(ptr('unique', t or u8(), q), 8)
    v = lambda q=.3: sized_struct(variant(string(), i32(), null=q), 32)
    return [arr(3, p()), arr(4, p(), c=True), vec(p()), lst(p()), deque(p()), tup(p(), u8(), p()), agg([u8(), p(), u16()], 'in'), agg([p(), p(), p()], 'ser'),
            agg([arr(3, p(), c=True), u8()], 'in'), opt(p(.5)), mapp('map', u8(), p()), mapp('multimap', u8(), ptr('shared', u16(), .3)), mapp('unordered_map', u8(), p()), variant(p(.5), u8()),
            vec(v()), arr(2, v()), arr(3, v(), c=True), vec(sized_struct(arr(2, p()), 16)), tup(v(), v()), lst(v()), optptr(p(.4)), p(.1, p(.3)), agg([u8(), vec(p()), vec(v()), u8()], 'out'),
            arr(2, sized_struct(agg([u8(), p()], 'out'), 16)), sized(vec(p()), '1').t if False else vec(sized_struct(tup(u8(), p()), 16))]

@plan
def C14(run):
    pool = [u8(), u16(), u64(), string(), vec(u16()), arr(3, u16()), opt(u8()), variant(u8(), string()), bits(9), vu32(), mixagg(), mapp('map', u8(), u8()), messages()[2], lst(u16()), messages()[8], tup(u8(), u64())]
    calls = spread([Call(t) for t in pool])
    cfgs = [grow(), grow('std::string', be=1, sz='2', form='io'), grow('std::vector<unsigned char>', copts=[('append', 0)]), grow('vf::tracked<std::byte>', fit=0),
            grow('std::vector<char>', copts=[('resize', 12)], sz='v'), fixed('span'), fixed('array', 'std::byte', 32, sz='1'), fixed('carray', 'char', 24, be=1), fixed('sspan', 'unsigned char', 20, sz='v'),
            grow(form='in_out'), fixed('span', 'std::byte', form='in_out'), grow(form='data_in_out')]
    n = scale(run, 6, 50)
    def seen(byte, cfgs):
        vs = views(byte)
        cs = [Call(t) for t in vs] + [Call(sized(t, x)) for t in vs[:1] + vs[3:] for x in '02v'] + [Call(t) for t in mspans()[:3]] + [Call(sized(mspans()[2], '0')), Call(u16(), vs[0], u8())]
        return Suite('v' + byte[-4:], cs, cfgs, lambda r, cs, c: each(r, cs, c, n * 2, G.reading), tus=2)
    m = scale(run, 3, 4)
    xs = X.suites(run, [xworld('g', grow(), m, 'wrSq'), xworld('f', fixed('span', 'char'), m, 'wrSq', [7] * m), xworld('a', fixed('array', 'std::byte', 3), 3, 'mrS', [0] * 3),
                        xworld('v', grow('std::vector<unsigned char>', fit=0), m, 'wS')])
    run.run_suites(xs + [Suite('s', calls, cfgs, lambda r, cs, c: each(r, cs, c, n, G.positions)),
                    Suite('r', calls, [source(ilim=64), source('std::vector', sz='1', ilim=64), source('std::span<const std::byte>', be=1, sz='v', ilim=64, form='input')], lambda r, cs, c: each(r, cs, c, n, G.reading), tus=4),
                    seen('std::byte', [source(ilim=64), fixed('span', sz='2', ilim=64), grow(ilim=64, sz='v')]), seen('char', [source('std::string_view', sz='1', byte='char', ilim=64)])])


def text(lens):
    """strings of given lengths"""
    t = string()
    def g(r):
        n = r.choice(lens); k = r.randrange(97, 123)
        return [k + (i % 3) for i in range(n)] if n > 400 else [r.randrange(97, 123) for _ in range(n)]
    t.gen = g
    return t
SHORT = [0, 100, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 150, 255, 256, 300]
def longmessages():
    """messages whose lengths take more than one byte, nested ones too"""
    one = pb([vi32(), text(SHORT)])
    return [one, pb([one]), pb([vi32(), one, u32()], 'out'), pb([vec(text(SHORT)), vec(one)]), pb([mapp('map', u32(), text(SHORT)), text([0, 3])]),
            pb([vec(u64()), pb([pb([text(SHORT)])])]), pb([(one, 20), (pb([vec(u8())]), 5000)], 'map')]
def hugemessages():
    """lengths that take three bytes"""
    big_ = [16375, 16379, 16380, 16381, 16382, 16383, 16384, 16390, 20000]
    one = pb([text(big_)])
    return [one, pb([vi32(), one]), pb([vec(text(big_)), u32()])]

@plan
def C18(run):
    calls = spread([Call(t) for t in messages()] + [Call(sized(t, x)) for t, x in zip(messages()[:5], '0124v')])
    cfgs = [grow(sz='0'), grow('std::string', be=1, sz='2'), fixed('span', be=1, sz='v'), grow(be=0, sz='1')]
    def g(r, cs, c):
        out = []
        for p in cs:
            for _ in range(scale(run, 6, 60)):
                s = rt(r, cs, c, p)
                if c.rec['sz'] == '1' and len(str(s)) > 3000: continue
                if s['ev']: out.append(s)
        return out
    long_ = [grow(sz='0'), grow('std::string', be=1, sz='2'), fixed('span', be=1, sz='v'), grow(be=0, sz='v', fit=0)]
    def once(r, cs, c): return [s for s in (G.roundtrip(r, cs, c, 1, p) for p in cs for _ in range(scale(run, 1, 4))) if s['ev']]
    run.run_suites([Suite('pb', calls, cfgs, g), Suite('long', [Call(t) for t in longmessages()], long_, sess(rt, scale(run, 8, 60)), tus=4),
                    Suite('huge', [Call(t) for t in hugemessages()], [grow(sz='v'), fixed('span', sz='4')], once, tus=2)])

# ---------------------------------------------------------------- protobuf
def moremessages():
    leaf = pb([vi32(), string(), vec(u32())])
    mid = pb([leaf, vec(leaf), reserved(), mapp('map', vi32_key(), leaf)], 'members')
    return [pb([mid, string(), vec(mid)], 'in'), pb([(vi32(), 536870911), (vec(vs32()), 19), (boolean(), 5)], 'field'),
            pb([vec(boolean()), vu64()] if 0 else [vu64(), vec(vu64()), vec(vs32())]), pb([lst(leaf), deque(vu32()), lst(string())]),
            pb([mapp('map', string(), vs64()), mapp('unordered_map', u64(), u(8, 'double')), mapp('map', boolean(), string())]),
            pb([mapp('map', enum_i(), leaf), vec(enum(1, 'unsigned char')), vec(enum(8, 'long long'))]),
            pb([]), pb([reserved(), reserved()]), pb([vec(u(4, 'float')), vec(u64()), u(4, 'float'), string()], 'members2')]
def enum_i(): return enum(4, 'int')
@plan
def C19(run):
    ms = messages() + moremessages()
    calls = spread([Call(t) for t in ms] + [Call(u8(), ms[2], u16()), Call(ms[6], ms[1]), Call(sized(ms[6], '0')), Call(sized(ms[2], '8')), Call(vec(ms[2])), Call(opt(ms[6]))])
    cfgs = [grow(sz='v'), grow('std::string', be=1, sz='2'), fixed('span', sz='4'), source(sz='0', ilim=4096)]
    n = scale(run, 16, 160)
    def g(r, cs, c):
        out = []
        for p in cs:
            for _ in range(n): out.append(G.pbmix(r, cs, c, p))
            if c.has_out:
                for _ in range(scale(run, 2, 10)): out.append(rt(r, cs, c, p))
        return [s for s in out if s['ev']]
    neg = Call(pb([vi32()]))
    def known(r, cs, c):
        return [{'buf': [11, 8] + [255] * 9 + [1], 'ev': [G.R(cs[0][0], [[[0, 0, 0, 0]]])]}]
    xm = [Call(sized(m, '0'), w=False) for m in ms if m.d['fs'] and m is not ms[13]]
    x = X.fields(run, xm, source(sz='0'), 3 if run.tier == 'quick' else 5, 3)
    run.run_suites([x, Suite('pb', calls, cfgs, g), Suite('neg', [neg], [source(sz='v', ilim=64)], known, tus=1)])
    for t in run.traces:
        if t['ev'][0].get('b') == [11, 8] + [255] * 9 + [1] and t['ev'][1].get('er') != 'ok':
            run.known_finding('int32-negative-10-bytes', 'a vint32 field holding a negative int32 in the ten byte form protobuf writes (08 ff*9 01) is rejected')

@plan
def C20(run):
    ms = messages() + moremessages()
    calls = spread([Call(t, w=False) for t in ms] + [Call(ms[2], string(), w=False), Call(vec(sized_struct(ms[6], 72)), w=False), Call(sized(ms[6], '0'), w=False), Call(opt(ms[12]), w=False), Call(tup(u8(), ms[2]), w=False)])
    cfgs = [source(ilim=200, sz='v'), source('std::string_view', be=1, sz='2', ilim=64, byte='char'), source('std::span<const unsigned char>', sz='0', ilim=64, byte='unsigned char'),
            source('std::vector', sz='1', ilim=100)]
    n = scale(run, 30, 300)
    def g(r, cs, c):
        out = []
        for p in cs:
            for _ in range(n): out.append(G.pbdamage(r, cs, c, p))
            for _ in range(scale(run, 1, 6)): out += G.prefixes(r, cs, c, p, 16)
            out += [s for s in (G.hostile(r, cs, c, p) for _ in range(scale(run, 4, 30))) if s['ev']]
            if c is cfgs[2]: out += G.alphabet(r, cs, c, p, scale(run, 3, 5), (0, 8, 10, 18, 1, 255))
        return [s for s in out if s['ev']]
    xm = [Call(sized(m, '0'), w=False) for m in ms[:12:2] + ms[14:15] + ms[20:24]]
    X.laws(run, ms[:-1], [(0, '1', 40), (1, 'v', 7)], 2, 3 if run.tier == 'quick' else 4)
    run.run_suites([X.fields(run, xm, source('std::string_view', sz='0', be=1, byte='char'), 2 if run.tier == 'quick' else 4, 3), Suite('pb', calls, cfgs, g)])

# -------------------------------------------------------------------- sizes
def alias(name, t, s, **f):
    return T(name, {**t.d, 's': s}, t.gen, t.dv, t.size, t.decl, **{**t.f, **f})
def aliases():
    """every alias the library offers, with the size it stands for"""
    Z = 'zpp::bits::'; out = []
    forms = [('{}1b', '1'), ('{}2b', '2'), ('{}4b', '4'), ('{}8b', '8'), ('static_{}', '0'), ('native_{}', '8')]
    for f, s in forms:
        out.append(Call(alias(Z + f.format('vector') + '<std::uint16_t>', vec(u16()), s)))
        out.append(Call(alias(Z + f.format('vector') + '<std::string>', vec(string()), s)))
        for base, t in (('string', string()), ('wstring', wstring()), ('u8string', seq('std::u8string', b('char8_t'), 24)), ('u16string', u16string()),
                        ('u32string', seq('std::u32string', u(4, 'char32_t'), 24))):
            out.append(Call(alias(Z + f.format(base), t, s)))
            out.append(Call(Item(t, f'{Z}{f.format(base + "_view")}(std::{base}_view({{}}))', {**t.d, 's': s}), r=False))
        out.append(Call(mspan(u32(), s, f'{Z}{f.format("span")}<std::uint32_t>')))
    return out
@plan
def C22(run):
    inner = [vec(u8()), vec(u16()), string(), vec(string()), vec(vec(u8())), deque(u16()), lst(u8()), deque(string()), vec(padagg()), vec(sized_struct(opt(vec(u8())), 32)), vec(sized_struct(mapp('map', u8(), string()), 24))]
    assoc = [sett('set', u16()), mapp('map', u16(), string()), sett('unordered_multiset', u32()), mapp('multimap', u8(), vec(u8()))]
    calls = [Call(sized(t, s)) for t in inner for s in '01248v'] + [Call(sized(t, s)) for t in assoc for s in '1248v'] + aliases()
    calls += [Call(sized(t, s, 'item')) for t in (vec(u8()), string(), vec(vec(u16())), deque(u8())) for s in '0128v']
    calls += [Call(sized(messages()[2], s)) for s in '01248v'] + [Call(sized(m, s)) for m in (mspan(u8()), mspan(u16()), mspan(string())) for s in '0248v']
    calls += [Call(u8(), sized(vec(u8()), '1'), vec(u16()), sized(string(), 'v'), string()), Call(agg([aliases()[0].items[0].t, vec(u8()), aliases()[2].items[0].t], 'in')),
              Call(vec(aliases()[2].items[0].t)), Call(arr(2, vec(u8())), tup(u8(), string())), Call(vec(u8()), vec(string()), sett('set', u8()))]
    cfgs = [grow(ilim=2000), grow('std::string', be=1, sz='1', ilim=2000), grow('std::vector<char>', sz='2', ilim=2000), fixed('span', sz='v', ilim=200), fixed('span', 'char', be=1, sz='8', ilim=200)]
    n = scale(run, 3, 25)
    nodef = [Call(vec(u16())), Call(string()), Call(vec(string())), Call(deque(u8())), Call(arr(2, u16()), opt(u8())), Call(agg([u8(), string()], 'in')), Call(sized(vec(u8()), '1'))]
    def g(r, cs, c):
        out = []
        for p in cs:
            for _ in range(n):
                out.append(G.roundtrip(r, cs, c, r.choice([1, 2]), p))
                s = G.hostile(r, cs, c, p); out.append(s)
        return [s for s in out if s['ev']]
    def g0(r, cs, c): return [s for s in each(r, cs, c, n * 3, lambda r, cs, c, pick: G.roundtrip(r, cs, c, 1, pick)) if s['ev']]
    # more elements than the size type counts
    big1 = [Call(sized(t, '1')) for t in (vec(u8()), vec(u16()), string(), deque(u8()), lst(u16()), mapp('map', u16(), u8()), sett('set', u32()), mspan(u16()), u16string())]
    big1 += [Call(vec(u8())), Call(lst(u16())), Call(mapp('map', u16(), u8())), Call(sett('set', u16())), Call(string()), Call(deque(u32())), Call(aliases()[1].items[0].t) if 0 else Call(wstring())]
    def gb(r, cs, c):
        return [G.counted(r, cs, c, p, k) for p in cs for k in r.sample([254, 255, 256, 257, 258, 300, 511, 512, 513, 600, 768], scale(run, 4, 11))]
    big2 = [Call(sized(t, '2')) for t in (vec(u8()), deque(u8()), string())] + [Call(vec(u8())), Call(lst(u8()))]
    def gb2(r, cs, c): return [G.counted(r, cs, c, p, k) for p in cs for k in r.sample([65535, 65536, 65537, 65600], scale(run, 1, 4))]
    run.run_suites([Suite('s', spread(calls), cfgs, g), Suite('n', nodef, [grow(sz='0'), fixed('span', be=1, sz='0')], g0, tus=2),
                    Suite('b1', big1, [grow(sz='1'), grow('std::string', be=1, sz='1')], gb, tus=3), Suite('b2', big2, [grow(sz='2')], gb2, tus=1)])

def pc0(): return agg([u8(), string()], 'in', extra=CMP)
def mixkey(): return agg([u16(), string()], 'ser2', extra=CMP) if 0 else agg([u16(), string()], 'in', extra=CMP)
CMP = '    auto operator<=>(const @ &) const = default;\n'
@plan
def C23(run):
    pc = lambda: pctor([u8(), string()])
    more = [sett('set', pctor([u16()])), sett('multiset', pctor([u8(), u8()])), sett('set', pc()), sett('multiset', tup(pc0(), u8())), mapp('map', mixkey(), vec(u8())), mapp('map', string(), mapp('map', string(), sett('set', u8()))), vec(mapp('map', u8(), u8())), opt(sett('set', u16())),
            mapp('unordered_multimap', string(), string()), sett('unordered_multiset', string()), mapp('map', u(8, 'double') if 0 else u64(), variant(u8(), string())), mapp('map', u8(), opt(u8())),
            mapp('map', u8(), ptr('unique', u8(), 0)), agg([mapp('map', u8(), u16()), sett('set', string())], 'in'), mapp('map', arr(2, u8()), u8()), sett('multiset', string())]
    ts = assocs() + more
    calls = spread([Call(t) for t in ts] + [Call(sized(t, s)) for t, s in zip((assocs()[0], assocs()[7], assocs()[3]), '18v')] + [Call(assocs()[0], assocs()[8])])
    cfgs = [grow(ilim=512), grow('std::string', be=1, sz='1', ilim=512), fixed('span', 'char', sz='v', ilim=64)]
    n = scale(run, 6, 60)
    def g(r, cs, c):
        out = []
        for p in cs:
            out += [G.roundtrip(r, cs, c, r.choice([1, 2]), p) for _ in range(n)]
            out += [G.hostile(r, cs, c, p) for _ in range(n)]
            for _ in range(scale(run, 2, 8)): out += G.prefixes(r, cs, c, p, 16)
        return [s for s in out if s['ev']]
    run.run_suites([Suite('a', calls, cfgs, g)])

# ------------------------------------------------------------- declarations
TABLE_DECLS = []
@plan
def C25(run):
    calls = []
    for n in range(1, 51):
        ms = [u8() if i % 3 else (string() if i % 7 == 0 and n > 1 else u16()) for i in range(n)]
        calls.append(Call(agg(ms, 'auto'), r=True))
        calls.append(Call(agg([(u16() if i % 2 else u8()) for i in range(n)] if n % 2 else [u16()] * n, 'in')))
    for s in STYLES:
        calls.append(Call(agg([u8(), string(), u32()], s)))
        calls.append(Call(agg([u16(), u64()], s)))
        calls.append(Call(agg([u16()], s))); calls.append(Call(agg([string()], s)))
        calls.append(Call(vec(agg([u8(), u16()], s) if 0 else sized_struct(agg([u8(), string(), u16()], s), 40 if s != 'base2' else 48))))
        calls.append(Call(opt(agg([vec(u16()), u8()], s))))
    calls += [Call(agg([agg([u8(), agg([string(), u16()], 'ser')], 'out'), agg([], 'auto'), arr(2, agg([u16()], 'priv'))])), Call(agg([])), Call(vec(sized_struct(agg([]), 1))),
              Call(tup(agg([]), u8(), agg([]))), Call(agg([u8(), agg([], 'in' if 0 else 'auto')], 'in'))]
    calls += recursive()
    calls = spread(calls)
    cfgs = [grow(ilim=2000), fixed('span', 'unsigned char', be=1, sz='1')]
    n = scale(run, 4, 40)
    g = lambda r, cs, c: [s for s in each(r, cs, c, n, rawfree) if s['ev']]
    run.run_suites([Suite('d', calls, cfgs, g), Suite('pod', podcalls(random.Random(f'{run.seed}/pods25'), scale(run, 40, 160)), [grow(ilim=2000)], g, tus=4), Suite('raw', raws(), [grow(), fixed('span', 'char', sz='1')], g, tus=2)], table=TABLE)

def rawfree(r, cs, c, pick): return G.roundtrip(r, cs, c, r.choice([1, 1, 2]), pick)
def raws():
    """objects written as raw bytes"""
    def raw(t, expr): return Item(t, expr, {'k': 'raw', 't': t.d})
    flat = agg([u32(), u16(), u8(), u8()]); pk = agg([u8(), u8(), u8()]); arrt = agg([arr(3, u16(), c=True), u16()], 'in')
    self_raw = lambda: rawself([u32(), u16(), u16()])
    out = [Call(raw(x, 'zpp::bits::as_bytes({})')) for x in (flat, pk, arrt, u32(), u64(), arr(4, u16()))]
    out += [Call(raw(vec(u16()), 'zpp::bits::bytes({})') if 0 else Item(vec(u16()), 'zpp::bits::bytes({})', {'k': 'raw', 't': {'k': 'seq', 's': '0', 't': u16().d, 'es': 2}})),
            Call(Item(vec(flat), 'zpp::bits::bytes({})', {'k': 'raw', 't': {'k': 'seq', 's': '0', 't': flat.d, 'es': 8}})),
            Call(Item(arr(3, u32()), 'zpp::bits::bytes({})', {'k': 'raw', 't': {'k': 'arr', 'n': 3, 't': u32().d}})),
            Call(self_raw()), Call(vec(sized_struct(self_raw(), 8))), Call(agg([u8(), self_raw(), u16()], 'in')), Call(opt(self_raw()))]
    return out
def rawself(ts):
    """a type that serializes itself as its memory image"""
    nm = fresh('Rw'); ms = [f'm{i}' for i in range(len(ts))]
    fields = '\n'.join(f'    {t.cpp} {m}{{}};' for t, m in zip(ts, ms))
    code = (f'struct {nm} {{\n    constexpr static auto serialize(auto & archive, auto & self) {{ return archive(zpp::bits::as_bytes(self)); }}\n{fields}\n'
            f'    auto vf_tie() {{ return std::tie({", ".join(ms)}); }}\n}};')
    return T(nm, {'k': 'raw', 't': {'k': 'tup', 'ts': [t.d for t in ts]}}, lambda r: [t.gen(r) for t in ts], [t.dv for t in ts], None, _decl_(*ts) + [code])
def _decl_(*ts): return [x for t in ts for x in t.decl]

TABLE = []
def rec(nm, code, ts, depth=3, stop=None):
    """a recursive type: ts(ref) gives the member descriptors and generators"""
    k = len(TABLE) + 1; TABLE.append(None)
    import catalog
    catalog.TABLE = TABLE
    ref = {'k': 'ref', 'i': k}
    d, gen, dv = ts(ref)
    TABLE[k - 1] = d
    return T(nm, ref, lambda r: gen(r, depth), dv, None, [code], host=1, gk=gen)
def recursive():
    del TABLE[:]
    # a list through unique_ptr in an optional pointer, trees in vectors, maps and variants
    a, b_, c, e = fresh('Ls'), fresh('Tr'), fresh('Mp'), fresh('Ex')
    i16 = lambda r: [r.randrange(256), r.randrange(256)]
    ls = rec(a, f'struct {a} {{ using serialize = zpp::bits::members<2>; std::uint16_t v{{}}; zpp::bits::optional_ptr<{a}> n{{}}; auto vf_tie() {{ return std::tie(v, n); }} }};',
             lambda ref: ({'k': 'tup', 'ts': [{'k': 'u', 'n': 2}, {'k': 'opt', 't': ref, 'fr': 1}]},
                          lambda r, k: [i16(r), [genrec(ls, r, k - 1)] if k and r.random() < .7 else []], [[0, 0], []]), 6)
    tr = rec(b_, f'struct {b_} {{ using serialize = zpp::bits::members<2>; std::uint8_t v{{}}; std::vector<{b_}> n{{}}; auto vf_tie() {{ return std::tie(v, n); }} }};',
             lambda ref: ({'k': 'tup', 'ts': [{'k': 'b'}, {'k': 'seq', 's': 'd', 't': ref, 'es': 32}]},
                          lambda r, k: [r.randrange(256), [genrec(tr, r, k - 1) for _ in range(r.choice([0, 1, 2]))] if k else []], [0, []]), 3)
    mp = rec(c, f'struct {c} {{ constexpr static auto serialize(auto & archive, auto & self) {{ return archive(self.v, self.n); }} std::string v{{}}; std::map<std::uint8_t, {c}> n{{}}; auto vf_tie() {{ return std::tie(v, n); }} }};',
             lambda ref: ({'k': 'tup', 'ts': [{'k': 'seq', 's': 'd', 't': {'k': 'b'}, 'es': 1}, {'k': 'map', 's': 'd', 't': {'k': 'tup', 'ts': [{'k': 'b'}, ref]}, 'u': 1}]},
                          lambda r, k: [[r.randrange(256) for _ in range(r.choice([0, 2]))], [[j, genrec(mp, r, k - 1)] for j in sorted(r.sample(range(256), r.choice([0, 1, 2])))] if k else []], [[], []]), 2)
    return [Call(ls), Call(tr), Call(mp), Call(vec(sized_struct(ls, 16))), Call(opt(tr)), Call(ptr('unique', mp, 0)), Call(u8(), tr, ls)]
def genrec(t, r, k): return t.f['gk'](r, k)

# ------------------------------------------------------------ configurations
@plan
def C26(run):
    calls = lambda: [Call(x) for x in (u8(), u32(), u64(), string(), vec(u16()), vec(u8()), vec(string()), mixagg(), bulkagg(), opt(u16()), vu64(), bits(11),
                                       variant(u8(), string()), arr(3, u16()), mapp('map', u8(), u16()), enum(2, 'short'), messages()[2])]
    rnd = random.Random(f'{run.seed}/order')
    def orders(n, f): return [f(random.Random(f'{run.seed}/{n}/{i}')) for i in range(n)]
    bufs = ['std::vector<std::byte>', 'std::vector<char>', 'std::vector<unsigned char>', 'std::string', 'std::pmr::vector<std::byte>', 'std::pmr::string',
            'vf::tracked<std::byte>', 'vf::tracked<char>', 'zpp::bits::vector1b<std::byte>', 'zpp::bits::static_vector<char>', 'zpp::bits::string2b', 'zpp::bits::vector<unsigned char>']
    bufs = [b_.replace('zpp::bits::vector<', 'zpp::bits::sized_t<std::vector<').replace('unsigned char>', 'unsigned char>, std::uint16_t>') if b_.startswith('zpp::bits::vector<') else b_ for b_ in bufs]
    A = [grow(b_) for b_ in bufs]
    B = [grow(b_, be=e, sz=s, ilim=300, olim=300, form=f, inextra=True, copts=c, order=random.Random(f'{run.seed}/{i}')) for i, (b_, e, s, f, c) in enumerate([
        (bufs[0], 1, 'v', 'in_out', [('append', 0)]), (bufs[1], 0, '1', 'io', [('resize', 5)]), (bufs[2], 'network', '8', 'in_out', [('reserve', 20)]),
        (bufs[3], 'native', 'n', 'io', [('append', 0), ('resize', 9)]), (bufs[6], 'swapped', '2', 'out', [('resize', 9), ('append', 0)]), (bufs[7], None, 'v', 'in_out', []),
        (bufs[8], 1, '2', 'in_out', []), (bufs[9], None, None, 'io', [('append', 0)]), (bufs[10], 1, '1', 'out', [])])]
    C = [grow(b_, be=e, sz=s, ilim=l, olim=l, form=f) for b_, e, s, l, f in [
        ('std::vector<std::byte>', None, None, None, 'data_in_out'), ('std::vector<char>', 1, '2', None, 'data_in_out:char'), ('std::vector<unsigned char>', 'network', 'v', 200, 'data_in_out:unsigned char'),
        ('std::vector<std::byte>', None, None, None, 'data_one'), ('std::vector<char>', 1, '1', 99, 'data_one:char'), ('std::vector<std::byte>', 1, '8', None, 'data_two:std::byte'),
        ('std::vector<unsigned char>', 'swapped', 'n', 150, 'data_two:unsigned char')]]
    # the same options in several orders, each with the same meaning
    def allopts(o): return grow('vf::tracked<std::byte>', be=1, sz='2', ilim=120, olim=120, fit=0, M=2, D=1, copts=[('append', 0)], order=o, inextra=True, extra=['zpp::bits::enlarge_overflow{}'])
    def some(o): return grow('std::vector<std::byte>', be=0, sz='v', ilim=64, olim=90, M=1, D=1, order=o, form='in_out' if 0 else 'io', extra=['zpp::bits::no_enlarge_overflow{}'])
    Dd = orders(scale(run, 6, 12), allopts) + orders(scale(run, 3, 6), some)
    Ff = [fixed(s, b_, cap, be=e, sz=z, ilim=l, form=f) for s, b_, cap, e, z, l, f in [
        ('span', 'std::byte', None, None, None, None, 'out'), ('span', 'char', None, 1, 'v', 200, 'in_out'), ('span', 'unsigned char', None, 'network', '8', None, 'io'),
        ('rspan', 'std::byte', None, 1, '2', None, 'out'), ('rspan', 'char', None, None, '1', None, 'io'), ('rspan', 'unsigned char', None, None, '1', None, 'in_out'),
        ('array', 'std::byte', 50, None, None, None, 'io'), ('array', 'char', 48, 1, 'v', 60, 'in_out'), ('array', 'unsigned char', 33, None, 'n', None, 'out'),
        ('carray', 'std::byte', 50, 1, '1', None, 'io'), ('carray', 'char', 47, None, 'v', None, 'out'), ('carray', 'unsigned char', 20, 0, '2', 60, 'in_out'),
        ('sspan', 'std::byte', 44, None, None, None, 'in_out'), ('sspan', 'char', 13, 1, '8', None, 'out'), ('sspan', 'unsigned char', 64, None, '1', None, 'io')]]
    Ss = [source(x, be=e, sz=z, ilim=300, form=f, byte=b_) for x, e, z, f, b_ in [
        ('std::span<const std::byte>', None, None, 'in', 'std::byte'), ('std::span<const char>', 1, 'v', 'input', 'char'), ('std::span<const unsigned char>', None, 'n', 'in', 'unsigned char'),
        ('std::string_view', 'swapped', '2', 'in', 'char'), ('std::vector', 1, None, 'input', 'std::byte'), ('std::vector', None, '8', 'in', 'unsigned char'), ('std::string', None, '1', 'in', 'char'),
        ('std::string', 1, 'v', 'input', 'char'), ('temporary', None, None, 'in', 'std::byte'), ('temporary', 1, '2', 'input', 'const char'.replace('const ', '')),
        ('const array 24 a', None, '1', 'in', 'std::byte'), ('const array 24 c', 1, '1', 'in', 'unsigned char'), ('const array 17 a', None, 'v', 'input', 'char'), ('const array 17 c', None, '2', 'in', 'std::byte')]]
    n = scale(run, 6, 60)
    def g(r, cs, c):
        out = []
        for p in cs:
            for _ in range(n):
                if not c.has_out: s = G.hostile(r, cs, c, p)
                elif r.random() < .3: s = G.overwrite(r, cs, c, pick=p)
                else: s = G.roundtrip(r, cs, c, r.choice([1, 2, 3]), p)
                if s['ev']: out.append(s)
        return out
    parts = [A[:6], A[6:], B[:5], B[5:] + C[:2], C[2:], Dd[:5], Dd[5:], Ff[:8], Ff[8:], Ss[:7], Ss[7:]]
    run.run_suites([Suite(f'k{i}', calls(), x, g, tus=1) for i, x in enumerate(parts)])

# ------------------------------------------------------------ pure functions
def fn_main(body, pre=''):
    return f'''#include "fn.hpp"
{pre}
int main(int, char ** argv)
{{
    std::ifstream in(argv[1]);
    fn::file = std::fopen(argv[2], "w");
    {body}
    std::fclose(fn::file);
}}
'''
def edge_ints(r, bits_, n):
    out = [0, 1, 2, 2 ** bits_ - 1, 2 ** (bits_ - 1), 2 ** (bits_ - 1) - 1]
    for k in range(bits_): out += [2 ** k, 2 ** k - 1, 2 ** bits_ - 2 ** k]
    return sorted(set(x % 2 ** bits_ for x in out)) + [r.getrandbits(r.randrange(1, bits_ + 1)) for _ in range(n)]

def varint_sizes(run):
    progs = []
    for t, n in (('std::uint8_t', 8), ('std::int8_t', 8), ('std::uint16_t', 16), ('std::int16_t', 16), ('std::uint32_t', 32), ('std::int32_t', 32), ('std::uint64_t', 64), ('std::int64_t', 64)):
        r = random.Random(f'{run.seed}/{t}')
        xs = range(256) if n == 8 else edge_ints(r, n, scale(run, 100, 3000))
        progs.append(('vsize-' + t[5:], fn_main(f'fn::varint_lines<{t}>(in);'), '\n'.join(map(str, xs))))
    run.run_programs(progs)

@plan
def C27(run):
    progs = []
    for t, n in (('std::uint32_t', 32), ('std::uint64_t', 64)):
        r = random.Random(f'{run.seed}/{t}')
        es = edge_ints(r, n, 0); rows = []
        for k in range(n):          # every shift count with several operands
            for a in r.sample(es, 3) + [r.getrandbits(n), r.getrandbits(n), 2 ** n - 1]: rows.append((a, r.choice(es), k))
        for _ in range(scale(run, 250, 8000)):
            a = r.choice([r.choice(es), r.getrandbits(n)])
            b_ = r.choice([r.choice(es), r.getrandbits(n), (2 ** n - a) % 2 ** n, a, (a + 1) % 2 ** n, (a ^ (1 << r.randrange(n)))])
            rows.append((a, b_, r.randrange(n)))
        progs.append(('be' + str(n), fn_main(f'fn::big_endian_lines<{t}>(in);'), '\n'.join(' '.join(map(str, x)) for x in rows)))
        # in constant expressions
        lines = []
        for i, (a, b_, k) in enumerate(r.sample(rows, scale(run, 40, 300))):
            s = 'u' if n == 32 else 'ull'
            X, Y = f'fn::be<{t}>{{{t}({a}{s})}}', f'fn::be<{t}>{{{t}({b_}{s})}}'
            for op, e, sh_ in (('add', f'{X} + {Y}', 0), ('and', f'{X} & {Y}', 0), ('or', f'{X} | {Y}', 0), ('xor', f'{X} ^ {Y}', 0), ('not', f'~{X}', 0), ('shl', f'{X} << {k}', 1), ('shr', f'{X} >> {k}u', 1)):
                lines.append(f'{{ constexpr auto m = fn::bytes_of({e}); fn::begin("be"); fn::raw(",\\"op\\":\\"{op}\\""); fn::bytes("a", fn::bytes_of({t}({a}{s}))); ' +
                             (f'fn::num("b", {k});' if sh_ else f'fn::bytes("b", fn::bytes_of({t}({b_}{s})));') + ' fn::bytes("mem", m); fn::end(); }')
        progs.append((f'bec{n}', fn_main('\n    '.join(lines)), ''))
    run.run_programs(progs)
    # written and read like any other member
    calls = [Call(x) for x in bigs()]
    def g(r, cs, c): return each(r, cs, c, scale(run, 12, 60), lambda r, cs, c, pick: G.roundtrip(r, cs, c, r.choice([1, 2]), pick))
    run.run_suites([Suite('be', calls, [grow(), grow('std::string', sz='1'), fixed('span', 'unsigned char', sz='v')], g, tus=2)])
def big(n):
    """as its memory image: n bytes, most significant first"""
    t = f'std::uint{8 * n}_t'; z = lambda r: [r.randrange(256) for _ in range(n)]
    return T(f'zpp::bits::numbers::big_endian<{t}>', {'k': 'arr', 'n': n, 't': {'k': 'b'}}, z, [0] * n, n, bigend=1)
def bigs(): return [big(4), big(8), vec(big(4)), arr(3, big(8)), opt(big(8)), agg([big(4), u8(), big(8)], 'in'), mapp('map', u8(), big(4)), tup(big(4), string())]

def cstr(bs):
    """a C string literal"""
    return '"' + ''.join(chr(c) if 32 <= c < 127 and chr(c) not in '"\\?' else f'\\{c:03o}' for c in bs) + '"'
def cbytes(bs, t='std::byte'):
    return f'std::array<{t}, {len(bs)}>{{' + ', '.join(f'{t}{{{c}}}' for c in bs) + '}'
def jb(key, bs): return f'fn::raw(",\\"{key}\\":{json.dumps(list(bs), separators=(",", ":"))}");'

@plan
def C24(run):
    r = random.Random(f'{run.seed}/C24')
    blocks = []
    def msg(n): return [r.choice([r.randrange(256), r.randrange(97, 123)]) for _ in range(n)]
    def line(f, rest): blocks.append(f'{{ fn::begin("{f}"); {rest} fn::end(); }}')
    lens = list(range(0, 70)) + [111, 112, 115, 118, 119, 120, 121, 127, 128, 129, 183, 184, 247, 248, 255, 256, 257, 300, 439, 440, 448, 511, 512, 513, 1000, 1023, 1024, 2047, 2048, 3000, 4000] + r.sample(range(70, 200), 8) + r.sample(range(200, 2000), 4)
    if run.tier != 'quick': lens += list(range(0, 300)) + [r.randrange(300, 3500) for _ in range(16)]
    for n in lens:
        m = msg(n)
        for h in ('sha1', 'sha256'):
            if n and r.random() < .3:
                line(h, f'static constexpr auto m = {cbytes(m)}; constexpr auto x = zpp::bits::{h}<m>(); {jb("m", m)} fn::bytes("r", x);')
            else:
                line(h, f'constexpr auto x = {cstr(m)}_{h}; {jb("m", m)} fn::bytes("r", x);')
            if n % 3 == 0 or n in (55, 56, 57, 63, 64):
                line(h + 'int', f'constexpr auto x = {cstr(m)}_{h}_int; {jb("m", m)} fn::id_value(x);')
    # of other objects
    for d, e, bs in [('std::uint32_t', '0x01020304u', [4, 3, 2, 1]), ('std::uint64_t', '0xfffffffffffffffeull', [254] + [255] * 7), ('char', "'a'", [97]), ('std::array<int, 3>', 'std::array<int, 3>{1, -1, 256}', [1, 0, 0, 0, 255, 255, 255, 255, 0, 1, 0, 0]),
                     ('std::byte', 'std::byte{0}', [0])]:
        for h in ('sha1', 'sha256'):
            line(h, f'constexpr auto x = zpp::bits::{h}<{d}{{{e}}}>(); {jb("m", bs)} fn::bytes("r", x);')
        line('sha1', f'constexpr auto x = zpp::bits::sha1<{d}{{{e}}}, std::array<unsigned char, 20>>(); {jb("m", bs)} fn::bytes("r", x);')
        line('sha256', f'constexpr auto x = zpp::bits::sha256<{d}{{{e}}}, std::array<char, 32>>(); {jb("m", bs)} fn::bytes("r", x);')
        for n in [-1] + list(range(1, len(bs) + 1)):
            for form in ('zpp::bits::id_v<{}, {}>', 'zpp::bits::id<{}, {}>::value', 'decltype(zpp::bits::serialize_id<{}, {}>())::value'):
                line('id', f'constexpr auto x = {form.format(d + "{" + e + "}", n)}; {jb("m", bs)} fn::num("n", {n}); fn::id_value(x);')
    for _ in range(scale(run, 12, 60)):
        m = msg(r.choice([1, 2, 3, 4, 5, 7, 8, 9, 12, 20]))
        for n in r.sample(range(1, len(m) + 1), min(3, len(m))) + [-1]:
            line('id', f'constexpr auto x = zpp::bits::id_v<{cstr(m)}_s, {n}>; {jb("m", m)} fn::num("n", {n}); fn::id_value(x);')
        h = r.choice([1, 256]); n = r.choice([1, 2, 3, 4, 5, 8, 9, 16, 20, -1])
        line('idsha', f'constexpr auto x = zpp::bits::id_v<{cstr(m)}_sha{h}, {n}>; {jb("m", m)} fn::num("h", {h}); fn::num("n", {n}); fn::id_value(x);')
    for _ in range(scale(run, 40, 200)):
        n = r.choice([0, 1, 2, 3, 8, 20, 32])
        s = ''.join(r.choice('0123456789abcdefABCDEF') for _ in range(2 * n))
        line('hex', f'constexpr auto x = {cstr(s.encode())}_decode_hex; {jb("s", s.encode())} fn::bytes("r", x);')
    line('hex', f'constexpr auto x = "0123456789abcdefABCDEF"_decode_hex; {jb("s", b"0123456789abcdefABCDEF")} fn::bytes("r", x);')
    for a in range(256):
        h = '%02x' % a; h = r.choice([h, h.upper(), h[0].upper() + h[1], h[0] + h[1].upper()])
        line('hex', f'constexpr auto x = "{h}"_decode_hex; {jb("s", h.encode())} fn::bytes("r", x);')
    for _ in range(scale(run, 30, 120)):
        m = msg(r.choice([1, 2, 5, 9])); a = r.randrange(len(m)); b_ = r.choice([-1, r.randrange(a + 1, len(m) + 1)])
        line('slice', f'constexpr auto x = zpp::bits::slice<{a}, {b_}>({cbytes(m)}); {jb("m", m)} fn::num("a", {a}); fn::num("b", {b_}); fn::bytes("r", x);')
        line('same', f'constexpr auto x = {cstr(m)}_b; {jb("m", m)} fn::bytes("r", x);')
        k = r.randrange(len(m) + 1)
        if 0 < k < len(m):
            line('same', f'static constexpr auto p = {cbytes(m[:k])}; static constexpr auto q = {cbytes(m[k:])}; constexpr auto x = zpp::bits::join<p, q>(); {jb("m", m)} fn::bytes("r", x);')
    r.shuffle(blocks)
    pre = 'using namespace zpp::bits::literals;'
    k = 8
    progs = []
    for i in range(k):
        fs = blocks[i::k]
        fns = '\n'.join(f'static void f{j}()\n{b_}' for j, b_ in enumerate(fs))
        progs.append((f'sha{i}', fn_main('\n    '.join(f'f{j}();' for j in range(len(fs))), pre + '\n' + fns), '', ['-fconstexpr-steps=200000000']))
    run.run_programs(progs)

# ------------------------------------------------------------------- calls
import rpc as R
def call_types():
    """parameters and results"""
    return [u8(), boolean(), u16(), i32(), u64(), u(8, 'double'), enum(4, 'int'), string(), vec(u8()), vec(u16()), vec(string()),
            mixagg(), padagg(), opt(string()), opt(u16()), tup(u8(), string()), arr(3, u16()), mapp('map', u8(), string()),
            variant(u8(), string()), ptr('unique', u32(), 0), ptr('shared', string(), .1), vec(sized_struct(mixagg(), 40)), vi32(), bits(9), pb([vi32(), string()]), optptr(u16())]
def id_sets(r, n):
    """ways to number n functions"""
    k = r.choice(['sha256int', 'sha1int', 'int', 'u8', 'u64', 'str', 'sha256', 'max', 'u16'])
    names = r.sample(['foo', 'bar', 'a::foo', 'baz', 'v1::get', 'put', 'x', 'y', 'list', 'do'], n)
    h256 = [list(hashlib.sha256(x.encode()).digest()) for x in names]; h1 = [list(hashlib.sha1(x.encode()).digest()) for x in names]
    U = lambda w: {'k': 'u', 'n': w}; A = lambda w: {'k': 'arr', 'n': w, 't': {'k': 'b'}}
    if k == 'sha256int': return R.Ids([f'"{x}"_sha256_int' for x in names], U(4), [h[:4] for h in h256])
    if k == 'sha1int': return R.Ids([f'"{x}"_sha1_int' for x in names], U(4), [h[:4] for h in h1])
    if k == 'int': v = r.sample([0, 1, 2, 3, 256, 65536, 2 ** 31 - 1, -1, -2], n); return R.Ids([str(x) for x in v], U(4), [list((x % 2 ** 32).to_bytes(4, 'little')) for x in v])
    if k == 'u8': v = r.sample(range(256), n); return R.Ids([f'(unsigned char)({x})' for x in v], {'k': 'b'}, v)
    if k == 'u16': v = r.sample([0, 1, 255, 256, 65535, 0x1234, 0x3412], min(n, 7)); return R.Ids([f'std::uint16_t({x})' for x in v], U(2), [list(x.to_bytes(2, 'little')) for x in v])
    if k == 'u64': v = r.sample([0, 1, 2 ** 32, 2 ** 64 - 1, 0x0102030405060708, 2 ** 63, 255], min(n, 7)); return R.Ids([f'{x}ull' for x in v], U(8), [list(x.to_bytes(8, 'little')) for x in v])
    if k == 'str': s = r.sample(['abc', 'abd', 'xbc', 'foo', 'bar', 'a c', 'ABC'], min(n, 7)); return R.Ids([f'"{x}"_s' for x in s], A(3), [list(x.encode()) for x in s])
    if k == 'sha256': return R.Ids([f'"{x}"_sha256' for x in names], A(32), h256)
    m = r.choice([3, 5, 4, 2, 8, 1])
    while len({tuple(h[:m]) for h in h256}) < n: m += 1
    return R.Ids([f'"{x}"_sha256, {m}' for x in names], {'k': 'b'} if m == 1 else U(m) if m in (2, 4, 8) else A(m), [h[0] if m == 1 else h[:m] for h in h256])

PASS = ['', '', 'const &', '&&']
def plain_fns(r, n, ctx):
    pool = call_types(); fns = []
    for _ in range(n):
        k = r.choice([0, 1, 1, 2, 2, 3, 4])
        ps = [r.choice(pool) for _ in range(k)]
        kind = r.choice(['mem', 'mem', 'cmem', 'nmem', 'cnmem', 'free']) if ctx else r.choice(['free', 'free', 'noexcept'])
        ret = r.choice([None, 'v', 'v', 'v', 'v', 'errc' if k == 0 else 'v'])
        if ret == 'v': ret = r.choice(pool)
        conv = None
        nopb = not any(p.d['k'] == 'pb' for p in ps)
        if ps and r.random() < .3:
            conv = [None] * k
            for q, p in enumerate(ps):
                if p.cpp == 'std::uint16_t': conv[q] = 'static_cast<int>({})'
                elif p.cpp == 'int': conv[q] = 'static_cast<long>({})'
                elif p.cpp == 'unsigned char': conv[q] = 'static_cast<unsigned long>({})'
                elif p.cpp == 'std::uint64_t': conv[q] = 'static_cast<long long>({})'
            if not any(conv) or any('unique_ptr' in p.cpp or 'optional_ptr' in p.cpp for p in ps): conv = None      # converting arguments are copied
        fns.append(R.Fn([(p, r.choice(PASS) if kind != 'noexcept' else 'const &') for p in ps], ret, kind, conv=conv))
    return fns

@plan
def C15(run):
    tus, cfgs = [], []
    n = scale(run, 8, 24)
    for t in range(n):
        r = random.Random(f'{run.seed}/C15/{t}')
        ctx = t % 3 == 1
        fns = plain_fns(r, r.choice([1, 2, 3, 5, 6]), ctx); ids = id_sets(r, len(fns))
        big = r.choice([None, 1, 'network', 'swapped', 0]); sz = r.choice([None, '1', '2', 'v', '8'])
        chans = [R.Chan(same=0, ctx=ctx), R.Chan(same=1, form='data', ctx=ctx, be=big), R.Chan(same=1, form='sep', ctx=ctx, sz=sz, be=big, ilim=400),
                 R.Chan(same=0, ctx=ctx, buf='std::string' if t % 2 else 'std::vector<unsigned char>', sz=sz, ilim=300), R.Chan(kind='fixed', ctx=ctx, be=big, const=t % 2)]
        g0 = len(cfgs); cfgs += [R.crec(c, fns, ids) for c in chans]
        ss = []
        for k, c in enumerate(chans):
            for _ in range(scale(run, 40, 250)):
                s = R.fixed_session(r, c, fns, ids) if c.rec['kind'] == 'fixed' else R.session(r, c, fns, ids)
                if s['ev']: ss.append({'cfg': g0 + k, **s})
        tus.append((f'rpc{t}', R.rpc_tu(fns, ids, list(enumerate(chans, g0))), ss))
    interleavings(run, tus, cfgs, 'C15')
    run.run_sessions(tus, cfgs, 'RpcTrace')

def interleavings(run, tus, cfgs, tag):
    """all interleavings of a few requests, serves and responses"""
    r = random.Random(f'{run.seed}/{tag}/x')
    fns = [R.Fn([u8()], u8()), R.Fn([], None), R.Fn([], 'errc', 'mem'), R.Fn([u16(), string()], string(), 'mem')]
    more = run.tier != 'quick'
    todo = []
    for t, (ids, big) in enumerate([(id_sets(r, len(fns)), None), (id_sets(r, len(fns)), 1)]):
        chans = [R.Chan(same=0, ctx=1, be=big), R.Chan(same=1, form='data', ctx=1, be=big)]
        for k, c in enumerate(chans):
            body = ([0, 3] if k else [0]) if tag == 'C16' else []
            n = 3 if tag == 'C15' or more else 2
            todo.append((t, ids, c, R.crec(c, fns, ids), X.rpc_ops(r, fns, ids, c.eo, body, True, k), n + more * (tag == 'C15' and k)))
    ss = X.rpc_sessions(run, [x[3:] for x in todo])
    for t in (0, 1):
        mine = [(j, x) for j, x in enumerate(todo) if x[0] == t]
        g0 = len(cfgs); cfgs += [x[3] for _, x in mine]
        tus.append((f'x{t}', R.rpc_tu(fns, mine[0][1][1], [(g0 + q, x[2]) for q, (_, x) in enumerate(mine)]),
                    [{'cfg': g0 + q, **s} for q, (j, _) in enumerate(mine) for s in ss[j]]))

def opaque_fns(r, n, ctx):
    pool = call_types(); fns = []
    forms = ['in', 'out', 'inout', 'span', 'spanref', 'spanref', 'none', None, 'inout']
    r.shuffle(forms)
    for q in range(n):
        form = forms[q % len(forms)]
        kind = r.choice(['mem', 'mem', 'cmem', 'free']) if ctx else 'free'
        if form is None:
            fns.append(plain_fns(r, 1, ctx)[0]); continue
        ret = r.choice([None, None, 'errc', 'v', 'v'])
        if ret == 'v': ret = r.choice(pool)
        ps = [r.choice(pool) for _ in range(r.choice([0, 1, 1, 2]))] if form in ('in', 'inout') else []
        ws = [r.choice(pool) for _ in range(r.choice([0, 1, 2]))] if form in ('out', 'inout') else []
        if form in ('span', 'spanref'): qs = [r.choice(pool) for _ in range(r.choice([1, 2]))]
        else: qs = list(ps)
        fns.append(R.Fn(ps, ret, kind, opq=form, ws=ws, qs=qs))
    return fns

@plan
def C16(run):
    tus, cfgs = [], []
    n = scale(run, 8, 24)
    for t in range(n):
        r = random.Random(f'{run.seed}/C16/{t}')
        ctx = t % 2
        fns = opaque_fns(r, r.choice([2, 4, 5, 6, 7]), ctx); ids = id_sets(r, len(fns))
        fns = fns[:len(ids.vals)]
        big = r.choice([None, 1, 'network', 0]); sz = r.choice([None, '1', '2', 'v', '8'])
        chans = [R.Chan(same=0, ctx=ctx), R.Chan(same=1, form='data', ctx=ctx, be=big), R.Chan(same=0, ctx=ctx, sz=sz, be=big, ilim=400),
                 R.Chan(kind='fixed', ctx=ctx, be=big, const=t % 3 == 0)]
        g0 = len(cfgs); cfgs += [R.crec(c, fns, ids) for c in chans]
        ss = []
        for k, c in enumerate(chans):
            for _ in range(scale(run, 50, 300)):
                s = R.fixed_session(r, c, fns, ids) if c.rec['kind'] == 'fixed' else R.session(r, c, fns, ids)
                if s['ev']: ss.append({'cfg': g0 + k, **s})
        tus.append((f'opq{t}', R.rpc_tu(fns, ids, list(enumerate(chans, g0))), ss))
    interleavings(run, tus, cfgs, 'C16')
    run.run_sessions(tus, cfgs, 'RpcTrace')

@plan
def C17(run):
    tus, cfgs = [], []
    n = scale(run, 8, 24)
    for t in range(n):
        r = random.Random(f'{run.seed}/C17/{t}')
        pool = call_types(); fns = []
        for q in range(14):
            k = r.choice([0, 1, 1, 2, 2, 3, 4])
            kind = ['free', 'noexcept', 'mem', 'cmem', 'nmem', 'cnmem', 'lambda', 'functor', 'mfunctor', 'nfunctor'][q % 10]
            ps = [(r.choice(pool), r.choice(PASS)) for _ in range(k)]
            if kind == 'lambda': ps = [(p, h if h != '&&' else '') for p, h in ps]
            ret = r.choice([None, 'v', 'v', 'v', 'errc' if k == 0 else 'v', 'ref', 'cref'])
            if ret == 'v': ret = r.choice(pool)
            elif ret in ('ref', 'cref'): ret = (ret, r.choice([i32(), string(), vec(u16()), mixagg()]))
            fns.append(R.Fn(ps, ret, kind))
        big = r.choice([None, 1, 'network', 'swapped']); sz = r.choice([None, '1', '2', 'v', '8'])
        places = [R.Place(), R.Place('const', be=big, sz=sz), R.Place('span', be=big), R.Place('string', sz=sz, ilim=300)]
        g0 = len(cfgs); cfgs += [{**c.rec, 'idd': {'k': 'empty'}, 'fns': [{**f.rec(), 'id': 0} for f in fns]} for c in places]
        ss = []
        for k, c in enumerate(places):
            for i in range(len(fns)):
                for _ in range(scale(run, 5, 40)):
                    s = R.apply_session(r, c, fns, i)
                    if s['ev']: ss.append({'cfg': g0 + k, **s})
        tus.append((f'apply{t}', R.apply_tu(fns, list(enumerate(places, g0))), ss))
    run.run_sessions(tus, cfgs, 'RpcTrace')

# -------------------------------------------------------------- reflection
def reflect_tu(objs, codes):
    """objs: (configuration, type)"""
    decls, seen = [], set()
    for _, t in objs:
        for d in t.decl:
            if d not in seen: seen.add(d); decls.append(d)
    o = ['#include "reflect.hpp"', 'namespace {'] + decls + ['}', 'namespace vf {']
    o += [f'template <> inline constexpr int code_of<{c}> = {n};' for c, n in codes.items()] + ['}']
    for g, t in objs: o.append(f'static void run{g}(const vf::J & s, vf::ctx_t &, bool & first) {{ vf::reflect_drive<{t.cpp}>(s, first); }}')
    o.append('static const vf::runner_entry runners[] = {' + ', '.join(f'{{{g}, run{g}}}' for g, _ in objs) + ', {-1, nullptr}};')
    o.append('int main(int argc, char ** argv) { return vf::run_main(argc, argv, runners); }')
    return '\n'.join(o) + '\n'

@plan
def C28(run):
    inner = agg([u8(), string()])
    pool = [u8(), u16(), u32(), u64(), i32(), b('char'), u(8, 'double'), string(), vec(u16()), arr(2, u8()), tup(u8(), u16()), boolean(), enum(2, 'short'), inner, mapp('map', u8(), u8()), ptr('unique', u8(), .3), ptr('shared', string(), .3)]
    more = pool + [opt(u16()), bits(9)]
    codes = {t.cpp: k for k, t in enumerate(more)}
    r = random.Random(f'{run.seed}/C28')
    tys = []
    for n in range(0, 51):
        tys.append(([r.choice(pool) for _ in range(n)], 'auto'))
        tys.append(([r.choice(more) for _ in range(n)], 'in'))
        if n % 3 == 0 or run.tier != 'quick': tys.append(([r.choice(more) for _ in range(n)], 'out'))
        if n and (n % 7 == 0 or n < 4): tys.append(([r.choice(more) for _ in range(n)], 'ctor'))
    cfgs, objs, ss = [], [], []
    for ts, style in tys:
        t = agg(ts, style); g = len(cfgs)
        cfgs.append({'ts': [x.d for x in ts], 'codes': [codes[x.cpp] for x in ts], 'style': style}); objs.append((g, t, ts))
        val = lambda: [x.gen(r) for x in ts]
        for _ in range(scale(run, 3, 12)):
            ev = [{'o': 'new', 'v': val()}, {'o': 'count'}, {'o': 'types'}]
            for _ in range(6):
                how = r.choice([0, 1, 2, 3, 4, 4])
                ev.append({'o': 'visit', 'how': how} if how < 4 else {'o': 'assign', 'v': val()})
            ss.append({'cfg': g, 'ev': ev})
    k = 8
    tus = [(f'refl{i}', reflect_tu([(g, t) for g, t, _ in objs if g % k == i], codes), [x for x in ss if x['cfg'] % k == i]) for i in range(k)]
    run.run_sessions(tus, cfgs, 'Reflect')

# ----------------------------------------------------------------- results
@plan
def C29(run):
    types = [('int', 'keeps', 0), ('vf::object', 'husk', 1), ('std::unique_ptr<vf::object>', 'gone', 1), ('std::string', 'husk', 0), ('int &', 'keeps', 0), ('const std::string &', 'keeps', 0)]
    cfgs = [{'moved': m, 'counts': c, 'type': t} for t, m, c in types]
    worlds = []
    for c in cfgs:
        ops = [{'o': 'val', 's': 1, 'v': 1}, {'o': 'val', 's': 2, 'v': 2}, {'o': 'err', 's': 1, 'c': 2}, {'o': 'err', 's': 2, 'c': 1}]
        for s in (1, 2):
            ops += [{'o': 'mov', 's': s}, {'o': 'get', 's': s, 'how': 0}, {'o': 'take', 's': s}, {'o': 'del', 's': s}, {'o': 'ask', 's': s}]
            ops += [{'o': 'thr', 's': s, 'how': h} for h in (0, 1, 2)]
        ops += [{'o': 'get', 's': 1, 'how': 1}]
        worlds.append((c, ops, scale(run, 4, 5)))
    ss = [{'cfg': g, **x} for g, xs in enumerate(X.results(run, worlds)) for x in xs]
    ss += [{'cfg': 0, 'buf': [], 'ev': [{'o': 'code', 'c': k} for k in range(5)]}]
    def tu(gs):
        o = ['#include "results.hpp"'] + [f'static void run{g}(const vf::J & s, vf::ctx_t &, bool & first) {{ vf::results_drive<{cfgs[g]["type"]}>(s, first); }}' for g in gs]
        o.append('static const vf::runner_entry runners[] = {' + ', '.join(f'{{{g}, run{g}}}' for g in gs) + ', {-1, nullptr}};')
        o.append('int main(int argc, char ** argv) { return vf::run_main(argc, argv, runners); }')
        return '\n'.join(o) + '\n'
    run.run_sessions([(f'res{g}', tu([g]), [x for x in ss if x['cfg'] == g]) for g in range(len(cfgs))], cfgs, 'ResultsTrace')

# ------------------------------------------------------------- compile time
def ce_pool():
    vw = [view('std::span<const std::byte>'), view('std::span<const std::byte>', '0')]
    return ([t for t in scalars()] + [vec(u8()), vec(b('std::byte')), vec(u16()), vec(i32()), vec(u(8, 'double')), string(), vec(string()), vec(vec(i32())),
             vec(arr(2, u16())), vec(bulkagg()), vec(padagg()), vec(sized_struct(mixagg(), 40)), vec(enum(2, 'unsigned short')),
             vec(sized_struct(tup(i32(), string()), 32)), arr(3, u8()), arr(4, u16()), arr(2, u64()), arr(3, string()), arr(2, arr(2, i32())),
             arr(2, u16(), c=True), arr(3, b('char'), c=True), arr(2, vec(u8())), arr(2, bulkagg()), arr(2, padagg())] +
            tuples()[:4] + tuples()[5:] + [opt(u8()), opt(u64()), opt(string()), opt(vec(u16())), opt(opt(u8())), opt(padagg()), opt(mixagg()), vec(sized_struct(opt(u16()), 4)),
             opt(tup(u8(), string()))] + varints() + [vec(varints()[0]), arr(2, varints()[5]), opt(varints()[8])] +
            [mixagg(), bulkagg(), padagg(), agg([]), agg([u8()]), agg([mixagg(), vec(bulkagg()), opt(u16())]), agg([arr(2, u16(), c=True), u8()]),
             agg([string()], 'in'), agg([u16(), u64()], 'ser'), agg([u8(), vec(u8())], 'priv'), agg([mixagg('out'), agg([])]), agg([u16(), string()], 'serout'), agg([u8(), u32()], 'const2'),
             agg([u32(), u8()], 'friendser'), agg([u8(), u64()], 'base')])

@plan
def C21(run):
    import ce
    from vf import validate
    pool = [Call(t) for t in ce_pool()]
    sv = 'std::span<const std::byte>'
    vw = [Item(view(sv)), sized(view(sv), '0'), sized(view(sv), '2'), sized(view(sv), 'v')]
    def lib(r, cs, c):
        out = []
        for p in cs:
            for _ in range(scale(run, 1, 4)):
                out += [rt(r, cs, c, p), G.roundtrip(r, cs, c, 3, p)] if c.has_out else []
                # a bool of another value than 0 and 1 is no constant expression
                ok = (c.rec['ilim'] >= 0 or not p[1].host) and not any('bool' in x.t.cpp for x in p[1].items)
                out += [aimed(G.hostile, r, cs, c, p) if ok else G.hostile(r, [p], c, p, True)]
            if c.has_out and r.random() < .4: out.append(G.overwrite(r, cs, c, 4, p))
            if c.has_out and c.rec['kind'] == 'fixed': out += r.sample(G.capacities(r, cs, c, p, 8), 2)
            out += r.sample(G.prefixes(r, cs, c, p, 8), 1)[:1] if enc_call_ok(r, p, c) else []
        return [s for s in out if s['ev']]
    def pbs(r, cs, c):
        out = []
        for p in cs:
            for _ in range(scale(run, 2, 8)):
                if c.has_out: out += [rt(r, cs, c, p)]
                out += [G.pbmix(r, cs, c, p)]
                if c.rec['ilim'] >= 0 and not any('"bool"' in json.dumps(x.d) for x in p[1].items): out += [G.pbdamage(r, cs, c, p)]
        return [s for s in out if s['ev']]
    cfgs = [ce.cgrow(ilim=64), ce.cfixed('span', be=1, sz='v'), ce.cgrow('std::string', be=1, sz='2', ilim=48, olim=60, M=2, D=1),
            ce.cgrow('std::vector<unsigned char>', be='swapped', sz='8', ilim=100, fit=0, copts=[['append']], form='io'),
            ce.cfixed('array', 'std::byte', 24, sz='1', ilim=64, form='in_out'), ce.csource('std::span<const std::byte>', sz='2', ilim=40)]
    groups = [('all', spread(pool), cfgs[:6], lib, 8, [])]
    ex = pb([vi32()])
    # (repeated messages and strings are read through placement new: not constant expressions)
    msgs = [ex, pb([ex], 'out'), pb([reserved(), vi32(), vs32()]), pb([(vi32(), 20), (vs32(), 30)], 'field'), pb([(vi32(), 20), (vs32(), 30)], 'map'),
            pb([u32(), u64(), u(4, 'float'), u(8, 'double')]), pb([vec(vi32()), string(), ex]), pb([boolean(), enum(4, 'int'), vu64(), vs64()], 'members'),
            pb([string(), vec(b('std::byte')), vec(u8())], 'full'), pb([vec(u32()), vec(u(8, 'double')), vec(vs64())]), pb([vec(enum(4, 'int')), vec(u64())]),
            pb([(string(), 1), (u32(), 16), (vec(vu32()), 2047), (ex, 2048), (vi64(), 100000)], 'mapn'), longmsg(r_len=130), longmsg(r_len=300)]
    pcfg = [ce.cgrow(ilim=600), ce.cgrow('std::string', be=1, sz='v', ilim=600), ce.cfixed('span', sz='2'), ce.csource(sz='v', ilim=600)]
    groups.append(('pb', spread([Call(m) for m in msgs] + [Call(msgs[0], Item(u16())), Call(vec(sized_struct(pb([vi32(), vu32()]), 8)))]), pcfg, pbs, 8, []))
    vcfg = [ce.cgrow(ilim=64), ce.cfixed('span', sz='v'), ce.csource(sz='v', ilim=64)]
    sw = 'std::string_view'
    groups.append(('strings', [Call(view(sw)), Call(sized(view(sw), 'v'), u16()), Call(sized(view(sw), '0')), Call(u8(), view('std::span<const char>'))],
                   [ce.cgrow('std::string', be=1, ilim=64), ce.cfixed('span', 'char', sz='1'), ce.csource('std::string_view', byte='char', sz='v', ilim=64), ce.csource('std::string', byte='char', form='input')], lib, 2, []))
    groups.append(('views', [Call(v) for v in vw] + [Call(vw[0], u16(), vw[3]), Call(u8(), vw[1])], vcfg, lib, 2, []))
    # a standard library whose variants can change alternative in a constant expression
    groups[0][2].append(ce.cfixed('carray', 'std::byte', 20, be=1)); groups[0][2].append(ce.cfixed('sspan', 'unsigned char', 9, sz='v'))
    alts = [variant(u8(), u32()), variant(i32(), string(), vec(u16())), variant(T('std::monostate', {'k': 'empty'}, lambda r: [], [], 1), u64(), arr(2, u8())),
            opt(variant(string(), u8())), variant(padagg(), opt(u8())), vec(variant(u8(), u16())), tup(variant(u8(), u32()), u8())]
    groups.append(('gcc', spread([Call(t) for t in alts + ce_pool()[::3]]), [ce.cgrow(ilim=64), ce.cfixed('span', be=1, sz='v')], lib, 8, 'gcc'))
    groups.append(('gccpb', spread([Call(m) for m in msgs[::2]]), [ce.cgrow(ilim=600, sz='v')], pbs, 4, 'gcc'))
    ce.run_ce(run, groups, validate)
    run.run_programs(constants(run))

def lit(d, cpp, v):
    """a constant of a structural type"""
    k = d['k']
    if k in ('b', 'bool', 'u'):
        w = d.get('n', 1) if k == 'u' else 1
        x = int.from_bytes(bytes(v if k == 'u' else [v]), 'little')
        return f'std::bit_cast<{cpp}>(ce::uint_of<{w}>::type({x}ull))'
    if k == 'var': return f'{cpp}(std::bit_cast<typename {cpp}::value_type>(ce::uint_of<{d["n"]}>::type({int.from_bytes(bytes(v), "little")}ull)))'
    raise KeyError(k)
def constants(run):
    """to_bytes and from_bytes of constants"""
    import ce
    r = random.Random(f'{run.seed}/{run.prop}/constants')
    ar = lambda t, n: arr(n, t)
    one = [u8(), b('char'), b('std::byte'), boolean(), u16(), i32(), u32(), u64(), u(8, 'double'), u(4, 'float'), u(4, 'char32_t'), enum(1, 'unsigned char'), enum(4, 'int'), enum(8, 'long'), *varints()]
    def spell(t, v):
        if t in one: return lit(t.d, t.cpp, v)
        if 'el' in t.f: return f'{t.cpp}{{' + ', '.join(spell(x, y) for x, y in zip(t.f['el'], v)) + '}'
        raise KeyError(t.cpp)
    def mkarr(n, t):
        x = arr(n, t); x.f['el'] = [t] * n; return x
    def mkagg(*ts):
        x = agg(ts); x.f['el'] = ts; x.decl = [q.replace('auto vf_tie()', 'constexpr auto vf_tie()') for q in x.decl]; return x
    more = [mkarr(3, one[0]), mkarr(2, one[4]), mkarr(2, one[7]), mkarr(1, one[8]), mkagg(one[0], one[6]), mkagg(one[4], one[5], one[7]), mkagg(mkarr(2, one[6]), one[2]),
            mkarr(2, mkagg(one[1], one[6])), mkagg(mkagg(one[0], one[0]), one[11]), mkagg(one[15], one[2]), mkarr(2, one[20]), mkagg()]
    pool = one + more
    k, per, progs = 8, scale(run, 24, 120), []
    for i in range(k):
        decls, seen, fns = [], set(), []
        def use(t):
            for q in t.decl:
                if q not in seen: seen.add(q); decls.append(q)
        for j in range(per):
            ts = [r.choice(pool) for _ in range(r.choice([1, 1, 2, 3]))]
            if i + k * j < len(pool): ts[0] = pool[i + k * j]
            vs = [t.gen(r) for t in ts]
            for t in ts: use(t)
            ds, vj = json.dumps([t.d for t in ts], separators=(',', ':')), json.dumps(vs, separators=(',', ':'))
            q = (f',"ds":{ds},"vs":{vj}').replace('"', '\\"')
            fl = [y for t, v in zip(ts, vs) for y in ce.flat(t.d, v)]
            body = []
            for n_, (t, v) in enumerate(zip(ts, vs)): body.append(f'static constexpr {t.cpp} o{n_} = {spell(t, v)};')
            os_ = ', '.join(f'o{n_}' for n_ in range(len(ts))); ty = ', '.join(t.cpp for t in ts)
            body.append(f'static constexpr auto x = zpp::bits::to_bytes<{os_}>(); fn::begin("bytes"); fn::raw("{q}"); fn::bytes("r", x); fn::end();')
            body.append(f'{{ std::vector<std::byte> d; zpp::bits::out out{{d}}; out({os_}).or_throw(); fn::begin("bytes"); fn::raw("{q}"); fn::bytes("r", d); fn::end(); }}')
            body.append(f'{{ constexpr auto y = [] {{ auto z = zpp::bits::from_bytes<x, {ty}>(); ce::log<{len(fl) + 1}> l; ce::output<std::byte> o{{l.d.data(), 0, {len(fl) + 1}, nullptr, 0}}; ce::put(o, z); l.n = o.n; return l; }}();\n'
                        f'fn::begin("same"); {jb("m", fl)} fn::bytes("r", std::vector<int>(y.d.data(), y.d.data() + y.n)); fn::end(); }}')
            fns.append('{ ' + '\n'.join(body) + ' }')
        pre = '#include "ce.hpp"\n' + '\n'.join(decls)
        progs.append((f'const{i}', fn_main('\n    '.join(f'f{j}();' for j in range(len(fns))), pre + '\n' + '\n'.join(f'static void f{j}()\n{b_}' for j, b_ in enumerate(fns))), '', ['-fconstexpr-steps=200000000']))
    return progs

def aimed(fn, r, cs, c, p): return fn(r, [p], c, p)
def enc_call_ok(r, p, c): return p[1].r and G.enc_call(p[1], p[1].gen(r), c) is not None
def longmsg(r_len):
    """messages whose length takes two bytes"""
    m = pb([vi32(), string(), pb([string()])])
    def g(r):
        n = r_len + r.choice([-4, -3, -2, -1, 0, 1, 40])
        return [[r.randrange(256) for _ in range(4)], [97 + r.randrange(26) for _ in range(n)], [[98] * r.choice([0, 1, 127, 130])]]
    m.gen = g
    return m
if os.environ.get('VF_ONLY'):   # development: run one part as a check of its own
    PLANS['X'] = lambda run: globals()[os.environ['VF_ONLY']](run)
