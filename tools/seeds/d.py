SEEDS = {}
def seed(i, prop, edits, needs, breaks, demo, **k): SEEDS[i] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **k)
def names(xs): return ', '.join(f'a{i}' for i in xs)

seed('arity-37', 'C28', [('return visitor(' + names(range(1, 38)) + ')', 'return visitor(' + names([*range(1, 22), 23, 22, *range(24, 38)]) + ')')],
     'a structure of exactly 37 members',
     'two members are visited in the wrong order, so they are written and read swapped with respect to other readers',
     '''    M m; int n = 0; bool ok = true; visit_members(m, [&](auto &... x) { ((ok = ok && x == ++n), ...); return 0; });
    CHECK(n == 37); CHECK(ok);''',
     pre='struct M { int ' + ', '.join(f'm{i} = {i}' for i in range(1, 38)) + '; };\n')
seed('long-double-native', 'C09', [('''                    if constexpr (endian_aware) {
                        m_data[m_position + i] = value[sizeof(value) - 1 - i];''', '''                    if constexpr (endian_aware && sizeof(item) <= 8) {
                        m_data[m_position + i] = value[sizeof(value) - 1 - i];'''),
    ('''                if constexpr (endian_aware) {
                    std::reverse_copy(
                        reinterpret_cast<const byte_type *>(&item),''', '''                if constexpr (endian_aware && sizeof(item) <= 8) {
                    std::reverse_copy(
                        reinterpret_cast<const byte_type *>(&item),'''),
    ('''                    if constexpr (endian_aware) {
                        value[sizeof(value) - 1 - i] =''', '''                    if constexpr (endian_aware && sizeof(item) <= 8) {
                        value[sizeof(value) - 1 - i] ='''),
    ('''                if constexpr (endian_aware) {
                    auto begin = m_data.data() + m_position;''', '''                if constexpr (endian_aware && sizeof(item) <= 8) {
                    auto begin = m_data.data() + m_position;''')],
     'a scalar of more than eight bytes with a swapped byte order',
     'it is stored in the native byte order',
     '''    std::vector<std::byte> d; out{d, endian::swapped{}}(1.5L).or_throw();
    long double x = 1.5L; CHECK(d.size() == sizeof x); CHECK(d[15 - 9] == ((std::byte *)&x)[9]); CHECK(d[15 - 8] == ((std::byte *)&x)[8]); CHECK(d[8] == ((std::byte *)&x)[7]);''')
seed('padding-tail', 'C02', [('''        } else if constexpr ((... || !byte_serializable<Types>())) {
            return std::false_type{};
        } else if constexpr ((0 + ... + sizeof(Types)) != sizeof(type)) {''', '''        } else if constexpr ((... || !byte_serializable<Types>())) {
            return std::false_type{};
        } else if constexpr ((0 + ... + sizeof(Types)) + alignof(type) <= sizeof(type)) {''')],
     'a structure with padding', 'the padding is written too',
     '''    struct S { std::uint32_t a; std::uint8_t b; }; std::vector<std::byte> d; out{d}(S{1, 2}).or_throw(); CHECK(d.size() == 5);''')
seed('explicit-in-vector', 'C25', [('''    } else if constexpr (!std::is_trivially_copyable_v<type>) {
        return false;
    } else if constexpr (has_explicit_serialize<type,
                                                traits::visitor<type>>()) {
        return false;
    } else if constexpr (concepts::empty<type>) {
        return false;
    } else if constexpr (
        !requires {''', '''    } else if constexpr (!std::is_trivially_copyable_v<type>) {
        return false;
    } else if constexpr (concepts::empty<type>) {
        return false;
    } else if constexpr (
        !requires {''')],
     'a container of an aggregate that has a serialization function of its own',
     'the elements are copied and the function is not called',
     '''    std::vector<std::byte> d; out{d}(std::vector<S>{{1, 2}, {3, 4}}).or_throw(); CHECK(d.size() == 6); CHECK(d[4] == std::byte{2});''',
     pre='struct S { std::uint8_t a, b; constexpr static auto serialize(auto & archive, auto & self) { return archive(self.b); } };\n')
seed('apply-void-self-copy', 'C17', [('''            std::apply(
                [&](auto &&... arguments) -> decltype(auto) {
                    return (std::forward<decltype(self)>(self).*
                            std::forward<decltype(function)>(function))(''', '''            std::apply(
                [self, function](auto &&... arguments) mutable -> decltype(auto) {
                    return (self.*function)(''')],
     'a member function returning nothing that changes its object, applied through an archive',
     'the function runs on a copy',
     '''    std::vector<std::byte> d; out{d}(5).or_throw(); S s; in i{d}; CHECK(success(apply(s, &S::f, i))); CHECK(s.n == 5);''',
     pre='struct S { int n = 0; void f(int x) { n += x; } };\n')
seed('last-binding-any-id', 'C15', [('''        ZPP_BITS_INLINE constexpr auto
        call_binding(auto & id) requires(!FirstBinding::opaque)
        {
            if (FirstBinding::id::value == id) {''', '''        ZPP_BITS_INLINE constexpr auto
        call_binding(auto & id) requires(!FirstBinding::opaque)
        {
            if (FirstBinding::id::value == id ||
                (sizeof...(OtherBindings) == 0 && sizeof...(Bindings) > 2)) {''')],
     'a request with an unknown id to a server of three functions or more',
     'the last function runs instead of the request being refused',
     '''    std::vector<std::byte> d; in i{d}; out o{d}; using r = rpc<bind<f, 1>, bind<g, 2>, bind<h, 3>>; r::server s{i, o};
    o(9, 4).or_throw(); CHECK(failure(s.serve())); CHECK(calls == 0);''',
     pre='int calls; int f(int x) { ++calls; return x; } int g(int x) { ++calls; return x; } int h(int x) { ++calls; return x; }\n')
seed('id-8-bytes', 'C24', [('''    } else if constexpr (sizeof(serialized_id) == 8) {
        return serialization_id<from_bytes<serialized_id, std::uint64_t>()>{};''', '''    } else if constexpr (sizeof(serialized_id) == 8) {
        return serialization_id<from_bytes<slice<0, 4>(serialized_id), std::uint32_t>()>{};''')],
     'an id of eight bytes', 'only four of them are used',
     '''    CHECK(sizeof(id_v<std::uint64_t(0x123456789a)>) == 8); CHECK(id_v<std::uint64_t(0x123456789a)> == 0x123456789a);''')
seed('error-destroyed', 'C29', [('''            if (success()) {
                m_return_value.~Type();
            }''', '''            m_return_value.~Type();''')],
     'a result of a type with a destructor that holds an error', 'a value that was never made is destroyed',
     '''    { value_or_errc<S> r{errc{std::errc::bad_message}}; CHECK(r.failure()); } CHECK(S::gone == 0);''',
     pre='struct S { static inline int gone; S() {} S(S &&) {} ~S() { ++gone; } };\n')
seed('packed-zigzag-size', 'C18', [('''                    varint_size<type::value_type::encoding>(element.value);''', '''                    varint_size(element.value);''')],
     'a packed field of zig-zag numbers one of which needs a different number of bytes plain',
     'the announced length is not that of the elements',
     '''    M m; m.v = {-1, 100, -70}; std::vector<std::byte> d; out{d, no_size{}}(m).or_throw();
    CHECK(d.size() == 7); CHECK(d[0] == std::byte{10}); CHECK(d[1] == std::byte{5}); CHECK(d[2] == std::byte{1});''',
     pre='struct M { std::vector<vsint32_t> v; using serialize = pb_members<1>; };\n')
seed('ce-swapped-read', 'C21', [('''                    if constexpr (endian_aware) {
                        value[sizeof(value) - 1 - i] =
                            byte_type(m_data[m_position + i]);
                    } else {
                        value[i] = byte_type(m_data[m_position + i]);
                    }''', '''                    value[i] = byte_type(m_data[m_position + i]);''')],
     'reading with a swapped byte order in a constant expression', 'the bytes are not swapped',
     '''    constexpr int x = [] { std::array<std::byte, 4> d{std::byte{}, std::byte{}, std::byte{}, std::byte{7}}; int x{}; in i{d, endian::big{}}; (void)i(x); return x; }(); CHECK(x == 7);''')
seed('size-option-first', 'C26', [('''        return get_default_size_type(options...);''', '''        return get_default_size_type();''')],
     'a size option that is not the first option', 'the option has no effect',
     '''    std::vector<std::byte> d; out{d, append{}, size1b{}}(std::string("a")).or_throw(); CHECK(d.size() == 2);''')
seed('be-right-edge', 'C27', [('''            if (!current) {
                continue;
            }''', '''            if (current <= 1 && offset == 0) {
                continue;
            }
            if (!current) {
                continue;
            }
            if (offset == CHAR_BIT - 1 && value > CHAR_BIT) {
                data[i] |= data[current - 1] << 2;
                continue;
            }''')],
     'a right shift by seven modulo eight, of more than a byte', 'one bit of each byte moves to the wrong place',
     '''    using numbers::big_endian; big_endian<std::uint32_t> a{0x12345678u}; auto b = a >> 15; CHECK((b == big_endian<std::uint32_t>{0x12345678u >> 15}));''')
