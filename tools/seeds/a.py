# Planted bugs: edits of /repo/zpp_bits.h
SEEDS = {}
def seed(i, prop, edits, needs, breaks, demo, **k): SEEDS[i] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **k)

seed('varint-zigzag-exact-fit', 'C04', [('if (data_size < varint_size(value)) [[unlikely]] {', 'if (data_size < varint_size<Encoding>(value)) [[unlikely]] {')],
     'a zig-zag varint written to a fixed buffer in which it just fits',
     'writing a zig-zag integer fails although its encoding fits in the space left',
     '''    std::array<std::byte, 2> buf{}; out o{buf};
    CHECK(success(o(vsint64_t{-60})));
    CHECK(success(o(vsint64_t{50})));
    CHECK(o.position() == 2);
    CHECK(failure(o(vsint64_t{-1})));''')
seed('varint-long-decode', 'C08', [('''                                         data.data()),
                                     data.size()},''', '''                                         data.data()),
                                     std::min<std::size_t>(
                                         data.size(),
                                         sizeof(value_type) + 1)},''')],
     'a 64 bit varint of ten bytes decoded at run time',
     'varints of ten bytes are rejected',
     '''    for (std::size_t pad : {0, 16}) {
        std::vector<std::byte> v; out o{v, append{}}; auto x = vuint64_t{(1ull << 63) | 5}; o(x).or_throw(); v.resize(v.size() + pad);
        vuint64_t y; in i{v}; CHECK(success(i(y))); CHECK(y.value == x.value);
    }''')
seed('limit-before-factor', 'C06', [('if (new_size > allocation_limit) [[unlikely]] {', 'if (required_size > allocation_limit) [[unlikely]] {')],
     'an allocation limit on the output with an enlarger, and a write whose enlarged buffer exceeds the limit while its bytes do not',
     'the buffer is enlarged above the allocation limit',
     '''    std::vector<std::byte> v; out o{v, no_fit_size{}, alloc_limit<100>{}, enlarger<2>{}};
    auto r = o(unsized(std::string(70, 'a')));
    CHECK(v.size() <= 100);''')
seed('view-length-from-start', 'C12', [('''                if (size > m_data.size() - m_position) [[unlikely]] {
                    return std::errc::result_out_of_range;
                }
                container = {m_data.data() + m_position, size};''', '''                if (size > m_data.size()) [[unlikely]] {
                    return std::errc::result_out_of_range;
                }
                container = {m_data.data() + m_position, size};''')],
     'a view whose announced length exceeds the rest of the data but not the whole of it',
     'string_view or span of const bytes refers to bytes behind the input',
     '''    std::vector<std::byte> v; out{v}(std::vector<std::byte>(6)).or_throw(); v.pop_back();
    std::span<const std::byte> s; in i{v}; CHECK(failure(i(s)));''')
seed('multimap-order', 'C23', [('''                container.insert(std::move(*object));
            } else {''', '''                if constexpr (requires { container.lower_bound(object->first); }) {
                    container.insert(container.lower_bound(object->first),
                                     std::move(*object));
                } else {
                    container.insert(std::move(*object));
                }
            } else {''')],
     'a multimap with several elements of one key',
     'elements of equal keys come back in reverse order, so the container read is not equal to the one written',
     '''    std::multimap<int, int> m{{1, 10}, {2, 20}, {2, 21}, {2, 22}}, n;
    std::vector<std::byte> v; out{v}(m).or_throw(); in{v}(n).or_throw();
    CHECK(m == n);''')
seed('pointer-reused', 'C11', [('''        auto loaded = access::make_unique<type>();;
        if (auto result''', '''        if constexpr (std::is_default_constructible_v<type>) {
            if (pointer) {
                return serialize_one(*pointer);
            }
        }
        auto loaded = access::make_unique<type>();;
        if (auto result''')],
     'a target shared pointer that is not null and has another owner',
     'the value other owners see changes',
     '''    auto p = std::make_shared<std::string>("new"); std::vector<std::byte> v; out{v}(p).or_throw();
    auto q = std::make_shared<std::string>("old"); auto other = q;
    in{v}(q).or_throw(); CHECK(*q == "new"); CHECK(*other == "old");''')
seed('limit-overflow', 'C07', [('''                    constexpr auto limit =
                        allocation_limit / sizeof(value_type);
                    if (size > limit) [[unlikely]] {''', '''                    if (std::size_t(size) * sizeof(value_type) >
                        allocation_limit) [[unlikely]] {''')],
     'an eight byte size prefix announcing a number of elements whose size wraps around',
     'the allocation limit is not applied to the announced number of elements',
     '''    std::vector<std::byte> v; out{v}(std::uint64_t(1) << 62, std::uint64_t(0)).or_throw();
    std::vector<std::uint32_t> t; in i{v, size8b{}, alloc_limit<64>{}};
    try { CHECK(i(t) == std::errc::message_size); } catch (...) { CHECK(!"threw"); }''')
seed('pb-map-not-cleared', 'C19', [('''                        if constexpr (concepts::container<type> &&
                                      !std::is_fundamental_v<type> &&''', '''                        if constexpr (concepts::container<type> &&
                                      !concepts::associative_container<type> &&
                                      !std::is_fundamental_v<type> &&''')],
     'decoding a message into an object whose map member is not empty',
     'entries of the old object stay in the map',
     '''    M m; m.m[1] = "a"; std::vector<std::byte> v; out{v}(m).or_throw();
    M n; n.m[2] = "b"; in{v}(n).or_throw(); CHECK(n.m == m.m);''', pre='struct M { using serialize = pb_protocol; std::map<vint32_t, std::string> m; };\n')
seed('pb-enum-size', 'C18', [('size += varint_size(std::underlying_type_t<type>(element));', 'size += varint_size(static_cast<unsigned int>(element));')],
     'a repeated enum with a 64 bit underlying type and a value above 32 bits',
     'the length of the packed field is too small',
     '''    M m; m.e = {E::b}; std::vector<std::byte> v; out{v, no_size{}}(m).or_throw(); CHECK(std::size_t(v[1]) == v.size() - 2);''',
     pre='enum class E : std::uint64_t { a = 1, b = 1ull << 40 }; struct M { using serialize = pb_protocol; std::vector<E> e; };\n')
seed('bitset-exact-bound', 'C04', [('''        constexpr auto size_in_bytes = (size + (CHAR_BIT - 1)) / CHAR_BIT;

        if constexpr (resizable) {
            if (auto result = enlarge_for(size_in_bytes);
                failure(result)) [[unlikely]] {
                return result;
            }
        } else if (size_in_bytes > m_data.size() - m_position)''', '''        constexpr auto size_in_bytes = (size + (CHAR_BIT - 1)) / CHAR_BIT;

        if constexpr (resizable) {
            if (auto result = enlarge_for(size_in_bytes);
                failure(result)) [[unlikely]] {
                return result;
            }
        } else if (size > (m_data.size() - m_position) * CHAR_BIT + 1)''')],
     'a bitset of 8n + 1 bits written to a view with n bytes left',
     'one byte behind the view is written',
     '''    std::array<std::byte, 3> a{std::byte(9), std::byte(9), std::byte(9)}; std::bitset<9> b; b.set();
    out o{std::span{a.data(), 1}}; auto r = o(b); CHECK(failure(r)); CHECK(a[1] == std::byte(9));''')
seed('span-target-bound', 'C03', [('''                if (size > container.size()) [[unlikely]] {
                    return std::errc::result_out_of_range;
                }
                container = {container.data(), size};''', '''                if (size * sizeof(value_type) >
                    container.size() * sizeof(value_type)) [[unlikely]] {
                    return std::errc::result_out_of_range;
                }
                container = {container.data(), size};''')],
     'an eight byte count which wraps around when multiplied by the element size, read into a span of mutable elements',
     'the span is given a size far behind its elements',
     '''    std::vector<std::byte> v; out{v}(std::uint64_t(1) << 62).or_throw(); v.resize(32);
    std::array<std::uint32_t, 3> t{7, 7, 7}; std::span<std::uint32_t> s{t.data(), 2}; in i{v, size8b{}}; CHECK(failure(i(s))); CHECK(s.size() <= 2);''')
