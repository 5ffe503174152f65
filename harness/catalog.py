"""The types the executor is instantiated with: C++ spelling, the descriptor the
specification reads, and generators of values.  The encoder here only makes
interesting inputs (valid streams to truncate and corrupt); it judges nothing."""
import itertools

class T:
    """A type. cpp: spelling; d: descriptor; gen(rng)->value; dv: default value."""
    def __init__(self, cpp, d, gen, dv, size=None, decl=(), **flags):
        self.cpp, self.d, self.gen, self.dv, self.size = cpp, d, gen, dv, size
        self.decl = list(decl)
        self.f = flags          # key: usable as ordered key; hash; noconst; host: hostile lengths allocate
    def __repr__(self): return self.cpp

_ids = itertools.count()
def fresh(p): return f'{p}{next(_ids)}'
def reset_names():
    global _ids
    _ids = itertools.count()

EDGE1 = [0, 1, 2, 0x7f, 0x80, 0xff, 0x55]
def g1(r): return r.choice(EDGE1) if r.random() < .5 else r.randrange(256)
def gn(n):
    def g(r):
        k = r.random()
        if k < .15: return [0] * n
        if k < .3: return [255] * n
        if k < .45: return [0] * (n - 1) + [0x80]
        if k < .6: return [1] + [0] * (n - 1)
        if k < .75:
            b = r.randrange(8 * n); v = 1 << b
            if r.random() < .5: v -= 1
            return list(v.to_bytes(n, 'little'))
        if k < .85:
            v = (256 ** n - r.randrange(300)) % 256 ** n
            return list(v.to_bytes(n, 'little'))
        return [r.randrange(256) for _ in range(n)]
    return g

def b(cpp, **f): return T(cpp, {'k': 'b'}, g1, 0, 1, key=1, hash=1, **f)
def boolean(): return T('bool', {'k': 'bool'}, lambda r: r.randrange(2), 0, 1, key=1, hash=1)
def u(n, cpp, **f):
    return T(cpp, {'k': 'u', 'n': n}, gn(n), [0] * n, n, **{**dict(key=1, hash=1), **f})
def enum(n, under, scoped=True):
    nm = fresh('En')
    decl = f'enum {"class " if scoped else ""}{nm} : {under} {{ {nm}_a = 1, {nm}_b = 77 }};'
    t = T(nm, {'k': 'b'} if n == 1 else {'k': 'u', 'n': n}, g1 if n == 1 else gn(n),
          0 if n == 1 else [0] * n, n, [decl], key=1, hash=0, enum=1)
    return t

def big(n, cpp):
    """zpp::bits::big_endian<>: stored and serialized as raw most-significant-first bytes"""
    raise NotImplementedError

def var(n, cpp, z):
    return T(cpp, {'k': 'var', 'n': n, 'z': z}, gn(n), [0] * n, n, key=0, hash=0)

def counts(r, hi=4):
    return r.choice([0, 1, 1, 2, 2, 3]) if r.random() < .8 else r.randrange(hi + 3)

def _decl(*ts): return [x for t in ts for x in t.decl]
def _hostile(*ts): return int(any(t.f.get('host') for t in ts))

def arr(n, t, c=False):
    cpp = f'std::array<{t.cpp}, {n}>'
    if c:
        nm = fresh('Ca')
        return T(nm, {'k': 'arr', 'n': n, 't': t.d}, lambda r: [t.gen(r) for _ in range(n)],
                 [t.dv] * n, n * t.size if t.size else None,
                 _decl(t) + [f'typedef {t.cpp} {nm}[{n}];'], carr=1, host=_hostile(t))
    return T(cpp, {'k': 'arr', 'n': n, 't': t.d}, lambda r: [t.gen(r) for _ in range(n)],
             [t.dv] * n, n * t.size if t.size else None, _decl(t), key=t.f.get('key'), host=_hostile(t))

def seq(cpp, t, size=24, s='d', **f):
    d = {'k': 'seq', 's': s, 't': t.d, 'es': t.size or 1}
    decl = _decl(t)
    if t.size: decl.append(f'VF_SIZE({t.size}, {t.cpp});')
    return T(cpp, d, lambda r: [t.gen(r) for _ in range(counts(r))], [], size,
             decl, **{**dict(key=t.f.get('key'), host=1, of_enum=t.f.get('enum')), **f})
def vec(t, **f): return seq(f'std::vector<{t.cpp}>', t, **f)
def _lst(t):
    t.d["lst"] = 1          # not contiguous
    return t
def deque(t): return _lst(seq(f"std::deque<{t.cpp}>", t, 48))
def lst(t): return _lst(seq(f"std::list<{t.cpp}>", t, 24))
def string(): return seq('std::string', b('char'), 24, hash=1)
def u16string(): return seq('std::u16string', u(2, 'char16_t'), 24)
def wstring(): return seq('std::wstring', u(4, 'wchar_t'), 24)

def _dedup(vs, keyf):
    seen, out = [], []
    for v in vs:
        k = keyf(v)
        if k not in seen:
            seen.append(k); out.append(v)
    return out

def sett(kind, t, s='d'):
    """kind: set multiset unordered_set unordered_multiset"""
    uniq = 'multi' not in kind
    g = lambda r: (lambda vs: _dedup(vs, lambda v: v) if uniq else vs)(
        [t.gen(r) for _ in range(counts(r))])
    return T(f'std::{kind}<{t.cpp}>', {'k': 'set', 's': s, 't': t.d, 'u': int(uniq)}, g, [], 24,
             _decl(t), key=0, host=_hostile(t), unsorted=1, of_enum=t.f.get('enum'))
def mapp(kind, k, v, s='d'):
    uniq = 'multi' not in kind
    def g(r):
        vs = [[k.gen(r), v.gen(r)] for _ in range(counts(r))]
        if not uniq and len(vs) > 1 and r.random() < .5:      # several elements of one key
            for x in vs[1:]:
                if r.random() < .6: x[0] = vs[0][0]
        return _dedup(vs, lambda x: x[0]) if uniq else vs
    return T(f'std::{kind}<{k.cpp}, {v.cpp}>',
             {'k': 'map', 's': s, 't': {'k': 'tup', 'ts': [k.d, v.d]}, 'u': int(uniq), 'ord': int('unordered' not in kind)}, g, [], 24,
             _decl(k, v), host=_hostile(k, v), unsorted=1, key_t=k, map_t=v)

def tup(*ts, pair=False):
    cpp = ('std::pair<' if pair else 'std::tuple<') + ', '.join(t.cpp for t in ts) + '>'
    return T(cpp, {'k': 'tup', 'ts': [t.d for t in ts]}, lambda r: [t.gen(r) for t in ts],
             [t.dv for t in ts], None, _decl(*ts), key=all(t.f.get('key') for t in ts),
             host=_hostile(*ts), noconst=any(t.f.get('noconst') for t in ts))

STYLES = ['auto', 'in', 'out', 'ser', 'serout', 'priv', 'ctor', 'const2', 'friendser', 'base', 'base2']
def agg(ts, style='auto', name=None, extra='', **f):
    """A user type; how it declares its serialization varies, its encoding must not."""
    nm = name or fresh('Ag')
    n = len(ts); extra = extra.replace('@', nm)
    if style == 'auto' and any(t.d['k'] in ('opt', 'bits') or t.f.get('carr') for t in ts): style = 'in'   # not detectable
    ms = [f'm{i}' for i in range(n)]
    fields = '\n'.join(f'    {t.cpp} {m}{{}};' for t, m in zip(ts, ms))
    tie = f'    auto vf_tie() {{ return std::tie({", ".join(ms)}); }}' if n else '    static constexpr bool vf_empty = true;'
    args = ', '.join(f'self.{m}' for m in ms)
    ser = f'constexpr static auto serialize(auto & archive, auto & self) {{ return archive({args}); }}'
    if style == 'auto':
        c = f'struct {nm} {{\n{fields}\n{tie}\n{extra}}};'
    elif style == 'in':
        c = f'struct {nm} {{\n    using serialize = zpp::bits::members<{n}>;\n{fields}\n{tie}\n{extra}}};'
    elif style == 'out':
        c = (f'struct {nm} {{\n{fields}\n{tie}\n}};\n'
             f'auto serialize(const {nm} &) -> zpp::bits::members<{n}>;' + extra)
    elif style == 'ser':
        c = f'struct {nm} {{\n    {ser}\n{fields}\n{tie}\n}};'
    elif style == 'serout':
        c = (f'struct {nm} {{\n{fields}\n{tie}\n}};\n'
             f'constexpr auto serialize(auto & archive, {nm} & self) {{ return archive({args}); }}\n'
             f'constexpr auto serialize(auto & archive, const {nm} & self) {{ return archive({args}); }}')
    elif style == 'priv':
        c = (f'class {nm} {{\npublic:\n    friend zpp::bits::access;\n    using serialize = zpp::bits::members<{n}>;\n'
             f'    {nm}() = default;\n{tie}\nprivate:\n{fields}\n}};')
    elif style == 'privser':
        c = (f'class {nm} {{\npublic:\n    friend zpp::bits::access;\n    {nm}() = default;\n{tie}\n'
             f'private:\n    {ser}\n{fields}\n}};')
    elif style == 'ctor':
        c = (f'struct {nm} {{\n    using serialize = zpp::bits::members<{n}>;\n    {nm}() {{}}\n'
             f'    explicit {nm}(int, int) {{}}\n{fields}\n{tie}\n}};')
    elif style == 'const2':      # a serialize that tells const from mutable
        c = (f'struct {nm} {{\n    constexpr static auto serialize(auto & archive, {nm} & self) {{ return archive({args}); }}\n'
             f'    constexpr static auto serialize(auto & archive, const {nm} & self) {{ return archive({args}); }}\n'
             f'{fields}\n{tie}\n}};')
    elif style == 'friendser':
        c = (f'class {nm} {{\npublic:\n    {nm}() = default;\n{tie}\n'
             f'    friend constexpr auto serialize(auto & archive, {nm} & self) {{ return archive({args}); }}\n'
             f'    friend constexpr auto serialize(auto & archive, const {nm} & self) {{ return archive({args}); }}\n'
             f'private:\n{fields}\n}};')
    elif style == 'base':        # members reached through a base class
        c = (f'struct {nm}_base {{\n{fields}\n{tie}\n}};\n'
             f'struct {nm} : {nm}_base {{\n    {ser}\n}};')
    elif style == 'base2':
        c = (f'struct {nm}_base {{\n    {nm}_base() {{}}\n    virtual ~{nm}_base() = default;\n{fields}\n{tie}\n}};\n'
             f'struct {nm} : {nm}_base {{\n    {nm}() {{}}\n    {ser}\n}};')
    d = {'k': 'tup', 'ts': [t.d for t in ts]} if n else {'k': 'empty'}
    size = None
    return T(nm, d, lambda r: [t.gen(r) for t in ts], [t.dv for t in ts], size,
             _decl(*ts) + [c], host=_hostile(*ts), noconst=any(t.f.get('noconst') for t in ts))

def pctor(ts):
    """default constructible only for the library"""
    nm = fresh('Pc'); n = len(ts); ms = [f'm{i}' for i in range(n)]
    fields = '\n'.join(f'    {t.cpp} {m}{{}};' for t, m in zip(ts, ms))
    c = (f'class {nm} {{\npublic:\n    explicit {nm}(vf::tag) {{}}\n    auto vf_tie() {{ return std::tie({", ".join(ms)}); }}\n'
         f'    bool operator==(const {nm} &) const = default;\n    auto operator<=>(const {nm} &) const = default;\n'
         f'private:\n    friend zpp::bits::access;\n    using serialize = zpp::bits::members<{n}>;\n    {nm}() = default;\n{fields}\n}};')
    return T(nm, {'k': 'tup', 'ts': [t.d for t in ts]}, lambda r: [t.gen(r) for t in ts], [t.dv for t in ts],
             None, _decl(*ts) + [c], host=_hostile(*ts), noval=1)

def sized_struct(t, size):
    t.size = size
    return t

def opt(t):
    return T(f'std::optional<{t.cpp}>', {'k': 'opt', 't': t.d, 'fr': 0},
             lambda r: [t.gen(r)] if r.random() < .65 else [], [], None, _decl(t),
             host=_hostile(t), noconst=t.f.get('noconst'))
def optptr(t):
    return T(f'zpp::bits::optional_ptr<{t.cpp}>', {'k': 'opt', 't': t.d, 'fr': 1},
             lambda r: [t.gen(r)] if r.random() < .65 else [], [], 8, _decl(t), host=_hostile(t))
def ptr(kind, t, nulls=.06):
    return T(f'std::{kind}_ptr<{t.cpp}>', {'k': 'ptr', 't': t.d},
             lambda r: [] if r.random() < nulls else [t.gen(r)], [], None, _decl(t), host=_hostile(t))

def variant(*ts, ids=None, idk='raw', decl=(), null=0, cpp=None):
    """ids: little-endian byte lists (integral ids) or raw byte lists"""
    if ids is None: ids = [[i] for i in range(len(ts))]
    def g(r):
        if null and r.random() < null: return [-1]
        i = r.randrange(len(ts))
        return [i, ts[i].gen(r)]
    return T(cpp or f'std::variant<{", ".join(t.cpp for t in ts)}>',
             {'k': 'alt', 'ids': ids, 'ik': idk, 'ts': [t.d for t in ts], 'kn': 0, 'ki': 0},
             g, [0, ts[0].dv], None, _decl(*ts) + list(decl), host=_hostile(*ts), alts=ts,
             noconst=any(t.f.get('noconst') for t in ts))
def known(v, i, idexpr, dynamic=False):
    """the variant item with its id known to both sides; i: index, -1: no such id"""
    d = {**v.d, 'kn': 1 if i >= 0 else 2, 'ki': max(i, 0)}
    e = f'zpp::bits::known_id({idexpr}, {{}})' if dynamic else f'zpp::bits::known_id<{idexpr}>({{}})'
    return Item(v, e, d, gen=lambda r: [i, v.f['alts'][i].gen(r)] if i >= 0 else v.gen(r), old=v.gen)

def bits(n):
    w = (n + 7) // 8
    def g(r):
        v = r.choice([0, (1 << n) - 1, 1, 1 << (n - 1), r.getrandbits(n), r.getrandbits(n)])
        return list(v.to_bytes(w, 'little'))
    return T(f'std::bitset<{n}>', {'k': 'bits', 'n': n}, g, [0] * w, None)

def view(cpp, s='d'):
    return T(cpp, {'k': 'view', 's': s},
             lambda r: {'a': -1, 'd': [g1(r) for _ in range(counts(r, 6))]}, {'a': -1, 'd': []}, 16)
def fview(byte, n):
    nm = fresh('Fv')
    # a fixed-extent view is never null: start on a static array
    decl = (f'inline const {byte} {nm}_z[{n}]{{}};\n'
            f'struct {nm} {{ std::span<const {byte}, {n}> v{{{nm}_z}}; '
            f'using vf_storage = void; auto & storage() {{ return v; }} }};')
    return T(nm, {'k': 'fview', 'n': n},
             lambda r: {'a': -1, 'd': [g1(r) for _ in range(n)]}, {'a': -1, 'd': [0] * n}, 16, [decl], expr='{}.v')
def mspan(t, s='d', view=''):
    return T(f'vf::mspan<{t.cpp}{", " + view if view else ""}>', {'k': 'spn', 's': s, 't': t.d},
             lambda r: [t.gen(r) for _ in range(counts(r))], [], 16, _decl(t), expr='{}.view', host=_hostile(t))

def empty(): return agg([])

# ---------------------------------------------------------------- protobuf
# without [[no_unique_address]]: clang 18 miscompiles the initialization of such aggregates
def reserved(): return T('zpp::bits::pb_reserved', {'k': 'empty'}, lambda r: [], [], 1, rsv=1)
def _field(t, num, init=None):
    """descriptor of a member of a message"""
    d, k = t.d, t.d['k']
    f = {'f': num, 'bag': 0, 'u': 0}
    if t.f.get('rsv'): f.update(k='rsv', t=d)
    elif k == 'var': f.update(k='var', t=d)
    elif k == 'bool': f.update(k='bool', t=d)
    elif t.f.get('enum'): f.update(k='enum', t=d)
    elif k == 'u': f.update(k='fix', t=d)
    elif k == 'pb': f.update(k='msg', t=d)
    elif k == 'map':
        f.update(k='map', u=d['u'], ord=d.get('ord', 1), kf=_field(t.f['key_t'], 1), vf=_field(t.f['map_t'], 2), t={'k': 'empty'})
    elif k in ('seq', 'set'):
        e = d['t']
        if t.f.get('of_enum'): f.update(k='renum', t=e)
        elif e['k'] == 'b': f.update(k='str', t=e)
        elif e['k'] == 'u': f.update(k='rfix', t=e)
        elif e['k'] == 'var': f.update(k='rvar', t=e)
        else: f.update(k='rmsg', t=e)
        if k == 'set': f['bag'] = 2 if d['u'] else 1
    else: raise KeyError(k)
    if init is not None: f['d'] = init
    return f

def pb(fields, how='in', s='d', inits=()):
    """A message.  fields: types or (type, number); how: in out full members field map.
    inits: {index: (C++ initializer, value)}"""
    inits = dict(inits)
    nm = fresh('Pb')
    ts = [f[0] if isinstance(f, tuple) else f for f in fields]
    nums = [f[1] if isinstance(f, tuple) else i + 1 for i, f in enumerate(fields)]
    ms = [f'm{i}' for i in range(len(ts))]
    def spell(f, t):
        if how in ('field', 'mix') and isinstance(f, tuple): return f'zpp::bits::pb_field<{t.cpp}, {f[1]}>'
        return t.cpp
    fs = '\n'.join(f'    {spell(f, t)} {m}{"" if t.f.get("rsv") else "{" + (inits[i][0] if i in inits else "") + "}"};'
                   for i, (f, t, m) in enumerate(zip(fields, ts, ms)))
    tie = f'    auto vf_tie() {{ return std::tie({", ".join(ms)}); }}'
    maps = ', '.join(f'zpp::bits::pb_map<{i + 1}, {n}>{{}}' for i, n in enumerate(nums) if n != i + 1)
    after = ''
    if how in ('in', 'field'): use = '    using serialize = zpp::bits::pb_protocol;\n'
    elif how == 'full': use = '    using serialize = zpp::bits::protocol<zpp::bits::pb{}>;\n'
    elif how == 'members': use = f'    using serialize = zpp::bits::pb_members<{len(ts)}>;\n'
    elif how == 'members2': use = f'    using serialize = zpp::bits::protocol<zpp::bits::pb{{}}, {len(ts)}>;\n'
    elif how in ('map', 'mix'): use = f'    using serialize = zpp::bits::protocol<zpp::bits::pb{{{maps}}}>;\n'
    elif how == 'mapn': use = f'    using serialize = zpp::bits::protocol<zpp::bits::pb{{{maps}}}, {len(ts)}>;\n'
    elif how == 'out': use, after = '', f'\nauto serialize(const {nm} &) -> zpp::bits::pb_protocol;'
    code = f'struct {nm} {{\n{use}{fs}\n{tie}\n}};{after}'
    desc = {'k': 'pb', 's': s, 'fs': [_field(t, n, inits[i][1] if i in inits else None)
                                       for i, (t, n) in enumerate(zip(ts, nums))]}
    return T(nm, desc, lambda r: [t.gen(r) for t in ts], [inits[i][1] if i in inits else t.dv for i, t in enumerate(ts)],
             None, _decl(*ts) + [code], host=1, msg=1)

# ------------------------------------------------------------------- items
class Item:
    """One argument of an archive call: a stored type and the expression passed."""
    def __init__(self, t, expr=None, d=None, gen=None, old=None):
        self.t = t
        self.expr = expr or t.f.get('expr') or '{}'
        self.d = d or t.d
        self.gen = gen or t.gen
        self.old = old or self.gen      # generator of what the read target holds

SIZES = {'1': 'unsigned char', '2': 'std::uint16_t', '4': 'std::uint32_t', '8': 'std::uint64_t',
         'v': 'zpp::bits::vsize_t', '0': 'void'}
def sized(t, s, form='ref'):
    """sized<>/unsized wrapper around one item (for that item only)"""
    d = {**t.d, 's': s}
    if form == 'ref':
        e = 'zpp::bits::unsized({})' if s == '0' else f'zpp::bits::sized<{SIZES[s]}>({{}})'
        base = t.f.get('expr')
        if base: e = e.format(base)
        return Item(t, e, d)
    tt = T(f'zpp::bits::sized_t<{t.cpp}, {SIZES[s]}>' if s != '0' else f'zpp::bits::unsized_t<{t.cpp}>',
           d, t.gen, t.dv, t.size, t.decl, **t.f)
    return Item(tt)
def unsized_item(t, s='0'): return sized(t, s)

class Call:
    """One call of an archive: items; what it may be used for."""
    def __init__(self, *items, r=True, w=True, const=None, tag='', keep=False, rv=False):
        self.items = [i if isinstance(i, Item) else Item(i) for i in items]
        self.r, self.w, self.tag, self.keep = r, w, tag, keep
        self.rv = rv and w and all(i.expr == '{}' for i in self.items)
        self.const = const if const is not None else not any(
            i.t.f.get('noconst') or i.t.f.get('expr') for i in self.items)
        self.host = any(i.t.f.get('host') for i in self.items)
    def ds(self): return [i.d for i in self.items]
    def gen(self, r): return [i.gen(r) for i in self.items]
    def old(self, r): return [i.old(r) if r.random() < .7 else i.t.dv for i in self.items]
    def code(self, name):
        o = [f'struct {name} {{']
        if self.w: o.append('    static constexpr bool writable = true;')
        if self.r: o.append('    static constexpr bool readable = true;')
        if self.const and self.w: o.append('    static constexpr bool constable = true;')
        for i, it in enumerate(self.items):
            o.append(f'    {it.t.cpp} a{i}{{}};')
        o.append('    void load([[maybe_unused]] const vf::J & j) {')
        for i, it in enumerate(self.items): o.append(f'        vf::get(j[{i}], a{i});')
        if self.keep: o.append('        other = a0;')
        o.append('    }\n    void save() const {\n        vf::put(\'[\');')
        for i, it in enumerate(self.items):
            if i: o.append("        vf::put(',');")
            o.append(f'        vf::putv(a{i});')
        o.append("        vf::put(']');\n    }")
        if self.keep:            # another owner of the pointee
            o.append(f'    {self.items[0].t.cpp} other{{}};\n    void after() {{ vf::key("keep"); vf::putv(other); }}')
        e = ', '.join(it.expr.format(f'a{i}') for i, it in enumerate(self.items))
        if self.w:
            o.append(f'    zpp::bits::errc w(auto & o) {{ return o({e}); }}')
            if self.const: o.append(f'    zpp::bits::errc w(auto & o) const {{ return o({e}); }}')
            if self.rv: o.append(f'    static constexpr bool temporary = true;\n    zpp::bits::errc rw(auto & o) && {{ return o({", ".join(f"std::move(a{i})" for i in range(len(self.items)))}); }}')
        if self.r: o.append(f'    zpp::bits::errc r(auto & i) {{ return i({e}); }}')
        o.append('};')
        return '\n'.join(o)
    def decls(self): return [x for it in self.items for x in it.t.decl]

# ------------------------------------------------- generator-side encoder
class Bad(Exception): pass
def leb(v):
    o = []
    while True:
        o.append((v & 127) | (128 if v > 127 else 0))
        v >>= 7
        if not v: return o
def _sz(s, n, o):
    if s == 'd': s = o['sz']
    if s == '0': return []
    if s == 'v': return leb(n)
    w = int(s); x = (n % 256 ** w).to_bytes(w, 'big' if o['be'] else 'little')
    return list(x)
def _ord(v, o): return v[::-1] if o['be'] else v
def _fixwt(n): return 5 if n == 4 else 1
TABLE = []
def enc(d, v, o):
    k = d['k']
    if k in ('b', 'bool'): return [v]
    if k == 'u': return _ord(v, o)
    if k == 'var':
        x = int.from_bytes(bytes(v), 'little'); w = 8 * d['n']
        if d['z']:
            s = x - (1 << w) if x >> (w - 1) else x
            x = ((s << 1) ^ (s >> (w - 1))) & ((1 << w) - 1)
        return leb(x)
    if k == 'arr': return sum((enc(d['t'], x, o) for x in v), [])
    if k == 'tup': return sum((enc(t, x, o) for t, x in zip(d['ts'], v)), [])
    if k in ('seq', 'spn', 'set', 'map'):
        return _sz(d['s'], len(v), o) + sum((enc(d['t'], x, o) for x in v), [])
    if k == 'opt': return [1] + enc(d['t'], v[0], o) if v else [0]
    if k == 'ptr':
        if not v: raise Bad
        return enc(d['t'], v[0], o)
    if k == 'alt':
        if v[0] < 0: raise Bad
        i = d['ids'][v[0]]
        pre = [] if d['kn'] else (_ord(i, o) if d['ik'] == 'u' else i)
        return pre + enc(d['ts'][v[0]], v[1], o)
    if k in ('bits',): return v
    if k == 'view': return _sz(d['s'], len(v['d']), o) + v['d']
    if k == 'fview': return v['d']
    if k == 'empty': return []
    if k == 'raw': return enc(d['t'], v, {**o, 'be': 0})
    if k == 'ref': return enc(TABLE[d['i'] - 1], v, o)
    if k == 'pb':
        body = sum((fld(f, x, {**o, 'be': 0, 'sz': 'v'}) for f, x in zip(d['fs'], v)), [])
        return _sz(d['s'], len(body), o) + body
    raise KeyError(k)
def tag(n, wt): return leb(8 * n + wt)
def _en(t, y):
    return leb(y if t['k'] in ('b', 'bool') else int.from_bytes(bytes(y), 'little'))
def fld(f, x, o):
    k = f['k']; n = f['f']
    if k == 'rsv': return []
    if k == 'var': return tag(n, 0) + enc(f['t'], x, o)
    if k == 'enum': return tag(n, 0) + _en(f['t'], x)
    if k == 'bool': return tag(n, 0) + [x]
    if k == 'fix': return tag(n, _fixwt(f['t']['n'])) + list(x)
    if k == 'msg': return tag(n, 2) + enc(f['t'], x, o)
    if k in ('str', 'rfix', 'rvar', 'renum'):
        if not x: return []
        bb = sum((_en(f['t'], y) if k == 'renum' else enc(f['t'], y, o) for y in x), [])
        return tag(n, 2) + leb(len(bb)) + bb
    if k == 'rmsg': return sum((tag(n, 2) + enc(f['t'], y, o) for y in x), [])
    if k == 'map':
        r = []
        for kv in x:
            bb = fld(f['kf'], kv[0], o) + fld(f['vf'], kv[1], o)
            r += tag(n, 2) + leb(len(bb)) + bb
        return r
    raise KeyError(k)
