SEEDS = {}
def seed(i, prop, edits, needs, breaks, demo, **k): SEEDS[i] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **k)

seed('ce-pb-long-size', 'C21', [('for (auto p = message_end - 1; p >= message_start;', 'for (auto p = message_end - 1; p > message_start;')],
     'a protobuf message longer than 127 bytes with a varint size written in a constant expression',
     'the first byte of the message is lost',
     '''    constexpr auto x = make(); CHECK(x == 1);''',
     pre='''struct M { using serialize = pb_protocol; std::array<char, 1> pad{}; };
struct L { using serialize = pb_protocol; vint32_t a; std::string s; };
constexpr int make()
{
    L l{5, std::string(200, 'x')}; std::array<std::byte, 400> b{};
    out o{b, size_varint{}}; if (failure(o(l))) return 2;
    L m; in i{b, size_varint{}}; if (failure(i(m))) return 3;
    return m.a == 5 && m.s == l.s;
}
'''.replace("struct M { using serialize = pb_protocol; std::array<char, 1> pad{}; };\n", ''))
seed('enlarge-wrap', 'C06', [('if (new_size / multiplier != required_size) [[unlikely]] {', 'if (new_size < required_size) [[unlikely]] {')],
     'an enlarged size that wraps around to something above the required size',
     'the buffer is resized to a wrapped size instead of failing',
     '''    B b; b.n = std::size_t(-1) / 4 + 8; out o{b, no_fit_size{}, append{}, enlarger<6>{}};
    auto r = o(std::uint64_t{});
    CHECK(r == std::errc::no_buffer_space);''',
     pre='''struct B { using value_type = std::byte; std::size_t n = 0; std::byte a[16]; std::byte * data() { return a - n; } const std::byte * data() const { return a - n; }
    std::size_t size() const { return n; } void resize(std::size_t m) { if (m > n + 16) std::exit(1); std::exit(1); } };
''')
seed('pb-limit-dropped', 'C06', [('''                               no_enlarge_overflow,
                                       enlarge_overflow>{},
                    alloc_limit<archive_type::allocation_limit>{}};''', '''                               no_enlarge_overflow,
                                       enlarge_overflow>{}};''')],
     'a protobuf message that exceeds the allocation limit written to an archive whose default size is not a varint',
     'the buffer grows above the allocation limit',
     '''    M m; m.s = std::string(300, 'x'); std::vector<std::byte> v; out o{v, alloc_limit<100>{}};
    auto r = o(m); CHECK(r == std::errc::no_buffer_space); CHECK(v.size() <= 100);''',
     pre='struct M { using serialize = pb_protocol; std::string s; };\n')
seed('pb-read-limit', 'C07', [('''              endian::little{},
              alloc_limit<std::remove_cvref_t<
                  decltype(archive)>::allocation_limit>{}};
        auto result = deserialize_fields(in, item);''', '''              endian::little{}};
        auto result = deserialize_fields(in, item);''')],
     'a string or packed field that exceeds the allocation limit inside a protobuf message',
     'the input allocation limit is not applied inside protobuf messages',
     '''    M m; m.s = std::string(300, 'x'); std::vector<std::byte> v; out{v}(m).or_throw();
    M n; in i{v, alloc_limit<100>{}}; CHECK(i(n) == std::errc::message_size);''',
     pre='struct M { using serialize = pb_protocol; std::string s; };\n')
seed('enum-vector-endian', 'C09', [('''            endian_independent_byte_serializable_visitor<type>{})();
    } else {
        return concepts::byte_type<type>;''', '''            endian_independent_byte_serializable_visitor<type>{})();
    } else {
        return concepts::byte_type<type> || std::is_enum_v<type>;''')],
     'an array or vector of multi byte enums in a big endian archive',
     'the enums of arrays and vectors are written in native order',
     '''    std::vector<std::byte> v; out{v, endian::big{}, no_size{}}(std::vector<E>{E(0x0102)}).or_throw();
    CHECK(v[0] == std::byte(1) && v[1] == std::byte(2));''', pre='enum class E : std::uint16_t {};\n')
seed('variant-id-check', 'C10', [('if (index > sizeof...(Types)) [[unlikely]] {', 'if (index + 1 > sizeof...(Types)) [[unlikely]] {')],
     'an id that belongs to no alternative', 'the last alternative is read instead',
     '''    std::vector<std::byte> v; out{v}(std::byte(9), std::uint8_t(1)).or_throw(); std::variant<int, std::uint8_t> x; in i{v};
    CHECK(i(x) == std::errc::bad_message);''')
seed('optional-ptr-stale', 'C11', [('''    if (!bool(has_value)) [[unlikely]] {
        self = {};
        return errc{};
    }''', '''    if (!bool(has_value)) [[unlikely]] {
        return errc{};
    }''')],
     'an empty optional_ptr read into one that holds a value', 'the earlier value stays',
     '''    std::vector<std::byte> v; out{v}(optional_ptr<int>{}).or_throw(); optional_ptr<int> p = std::make_unique<int>(5); in{v}(p).or_throw(); CHECK(!p);''')
seed('fixed-view-bound', 'C12', [('if (type::extent > m_data.size() - m_position)', 'if (type::extent > m_data.size())')],
     'a view of constant bytes with a fixed extent longer than what is left but not than the buffer', 'the view reaches behind the input',
     '''    std::vector<std::byte> v(6); std::byte x; std::array<std::byte, 4> d{}; std::span<const std::byte, 4> s{d}; in i{v};
    i(x, x, x).or_throw(); CHECK(failure(i(s)));''')
seed('valueless-ignored', 'C10', [('''            auto variant_index = variant.index();
            if (std::variant_npos == variant_index) [[unlikely]] {
                return std::errc::invalid_argument;
            }''', '''            auto variant_index = variant.index();
            if (std::variant_npos == variant_index) [[unlikely]] {
                return {};
            }''')],
     'a valueless variant', 'writing a valueless variant reports success and later items are written',
     '''    std::variant<int, T> x; try { x.emplace<1>(); } catch (int) {} std::vector<std::byte> v; out o{v}; CHECK(o(x, 5) == std::errc::invalid_argument);''',
     pre='struct T { T() { throw 1; } using serialize = members<0>; };\n')
seed('array-collects-result', 'C13', [('''                                                   value_type>) {
            return serialize_one(bytes(array));
        } else {
            for (auto & item : array) {
                if (auto result = serialize_one(item); failure(result))
                    [[unlikely]] {
                    return result;
                }
            }
            return {};
        }
    }

    template <typename SizeType = default_size_type>
    ZPP_BITS_INLINE constexpr errc
    serialize_one(concepts::container auto && container)
    {
        using type = std::remove_cvref_t<decltype(container)>;
        using value_type = typename type::value_type;
        constexpr auto is_const =''', '''                                                   value_type>) {
            return serialize_one(bytes(array));
        } else {
            errc result{};
            for (auto & item : array) {
                result = serialize_one(item);
            }
            return result;
        }
    }

    template <typename SizeType = default_size_type>
    ZPP_BITS_INLINE constexpr errc
    serialize_one(concepts::container auto && container)
    {
        using type = std::remove_cvref_t<decltype(container)>;
        using value_type = typename type::value_type;
        constexpr auto is_const =''')],
     'an array of which an element that is not the last fails while the last can be read', 'the failure is lost and later elements are read',
     '''    std::vector<std::byte> v; out{v}(std::byte(1), std::uint8_t(7), std::byte(9), std::byte(0), 5).or_throw();
    std::array<std::variant<int, std::uint8_t>, 3> a; in i{v}; CHECK(i(a) == std::errc::bad_message);''')
seed('fit-one-short', 'C05', [('if (m_position >= end) {\n                m_data.resize(m_position);', 'if (m_position + 1 >= end) {\n                m_data.resize(m_position);')],
     'writing into an existing larger buffer so that one byte is left behind what is written', 'the last byte of the buffer is cut off',
     '''    std::vector<std::byte> v(5, std::byte(9)); out o{v}; o(7).or_throw(); CHECK(v.size() == 5);''')
seed('resize-keeps-position', 'C05', [('''        m_data.resize(size.size);
        if (m_position > size.size) {
            m_position = size.size;
        }''', '''        m_data.resize(size.size);''')],
     'the append option followed by a resize option to less than the old size', 'the position lies behind the end of the buffer',
     '''    std::vector<std::byte> v(20); out o{v, append{}, resize{4}}; CHECK(o.position() <= v.size());''')
seed('rpc-context-copied', 'C15', [('''        Out & out;
        [[no_unique_address]] Context context;''', '''        Out & out;
        [[no_unique_address]] std::remove_cvref_t<Context> context;''')],
     'a member function bound to an id whose object keeps state', 'the function runs on a copy of the object',
     '''    C c; std::vector<std::byte> v, w; in i{w}; out o{v}; in i2{v}; out o2{w};
    using R = rpc<bind<&C::add, 1>>; R::client cl{i, o}; R::server s{i2, o2, c};
    cl.request<1>(4).or_throw(); s.serve().or_throw(); CHECK(c.n == 4);''', pre='struct C { int n = 0; int add(int x) { return n += x; } };\n')
seed('pb-sint-size', 'C18', [('''                size +=
                    varint_size<type::value_type::encoding>(element.value);''', '''                size += varint_size(element.value);''')],
     'a repeated sint field with negative values', 'the length of the packed field is wrong',
     '''    M m; m.e = {-1, 64, -70000}; std::vector<std::byte> v; out{v, no_size{}}(m).or_throw(); CHECK(std::size_t(v[1]) == v.size() - 2);''',
     pre='struct M { using serialize = pb_protocol; std::vector<vsint64_t> e; };\n')
seed('pb-size-two-bytes', 'C18', [('''                auto move_ahead_count =
                    varint_size(message_size) - preserialized_varint_size;''', '''                std::size_t move_ahead_count =
                    message_size > 0x7f ? 1 : 0;''')],
     'a nested message longer than 16383 bytes', 'its size overwrites its first byte',
     '''    N n; n.m.s = std::string(20000, 'x'); n.m.i = 5; std::vector<std::byte> v; out{v}(n).or_throw(); N k; CHECK(success(in{v}(k))); CHECK(k.m.s == n.m.s && k.m.i == 5);''',
     pre='struct M { using serialize = pb_protocol; std::string s; vint32_t i; }; struct N { using serialize = pb_protocol; M m; };\n')
seed('pb-unpacked-repeated', 'C19', [('if (field_type != wire_type::length_delimited)\n                    [[unlikely]] {', 'if (field_type == tag_type<value_type>() && !item.size())\n                    [[unlikely]] {')],
     'a repeated scalar field that comes unpacked with more than one element', 'the second element is taken for a length',
     '''    std::vector<std::byte> v; out{v}(std::uint8_t(8), std::uint8_t(1), std::uint8_t(8), std::uint8_t(2)).or_throw(); M m; CHECK(success(in{v, no_size{}}(m))); CHECK(m.e.size() == 2);''',
     pre='struct M { using serialize = pb_protocol; std::vector<vint32_t> e; };\n')
seed('pb-tag-number-narrow', 'C19', [('return (unsigned int)(tag >> 3);', 'return std::uint16_t(tag >> 3);')],
     'a field number of 65536 or more', 'an unknown field is taken for a declared one',
     '''    std::vector<std::byte> v; out{v, no_size{}}(vuint32_t((65537u << 3) | 0), vint32_t(5)).or_throw(); M m{}; CHECK(success(in{v, no_size{}}(m))); CHECK(m.a == 0);''',
     pre='struct M { using serialize = pb_protocol; vint32_t a; };\n')
seed('size1b-signed', 'C22', [('using default_size_type = unsigned char;', 'using default_size_type = signed char;')],
     'a container of 128 to 255 elements with one byte sizes', 'the container can not be read',
     '''    std::vector<std::byte> v; std::list<int> l(200, 1), m; CHECK(success(out{v, size1b{}}(l))); CHECK(v.size() == 801); CHECK(success(in{v, size1b{}, alloc_limit<1000>{}}(m))); CHECK(m == l);''')
seed('map-kept-if-empty', 'C23', [('''        container.clear();

        for (std::size_t index{}; index < size; ++index)''', '''        if (!size) {
            return {};
        }

        container.clear();

        for (std::size_t index{}; index < size; ++index)''')],
     'an empty container read into one that is not', 'the earlier elements stay',
     '''    std::set<int> s, t{1, 2}; std::vector<std::byte> v; out{v}(s).or_throw(); in{v}(t).or_throw(); CHECK(t.empty());''')
seed('sha-long', 'C24', [('big_endian<std::uint64_t>{original_message.size() * CHAR_BIT}>();', 'big_endian<std::uint64_t>{std::uint8_t(original_message.size()) * std::uint64_t(CHAR_BIT)}>();', 2)],
     'a message of 256 bytes or more', 'the digest is wrong',
     '''    constexpr auto d = sha1<std::array<std::byte, 300>{}>(); constexpr unsigned char x[4] = {0xb2, 0x3b, 0x62, 0xbb};
    for (int i = 0; i < 4; ++i) CHECK(std::to_integer<int>(d[i]) == x[i]);''')
seed('members-37', 'C25', [('a35, a36, a37);', 'a35, a37, a36);')],
     'a type of 37 members', 'its last two members are written in the wrong order',
     '''    M m{}; m.y = 1; m.z = 2; std::vector<std::byte> v; out{v}(m).or_throw(); CHECK(v.size() == 37 + 3 && v[35] == std::byte(1));''',
     pre='struct M { std::uint8_t ' + ', '.join(f'x{i}' for i in range(35)) + '; std::uint8_t y; std::uint32_t z; };\n')
seed('limit-of-lvalue-option', 'C26', [('''                      std::remove_cvref_t<
                          Option>::alloc_limit_value;
                  }) {''', '''                      Option::alloc_limit_value;
                  }) {''')],
     'an allocation limit given to data_in_out or as a named option', 'the limit is not applied',
     '''    alloc_limit<10> limit; std::vector<std::byte> v; out{v}(std::string(100, 'a')).or_throw(); std::string s; in i{v, limit}; CHECK(i(s) == std::errc::message_size);''')
seed('be-shift-wide', 'C27', [('''            auto current = i + (value / CHAR_BIT);

            if (current >= sizeof(Type)) {''', '''            auto current = i + (value / CHAR_BIT);

            if (current >= sizeof(Type) - (value >= 32)) {''')],
     'an eight byte big endian number shifted left by 32 or more', 'the low byte is lost',
     '''    numbers::big_endian<std::uint64_t> a{std::uint64_t{0x1234}}; auto b = a << 40; std::array<unsigned char, 8> d; std::memcpy(&d, &b, 8); CHECK(d[1] == 0x12 && d[2] == 0x34);''')
seed('apply-failed-called', 'C17', [('''            parameters_type parameters;
            if constexpr (std::is_void_v<return_type>) {
                if (auto result = archive(parameters); failure(result))
                    [[unlikely]] {
                    return result;
                }
                std::apply(std::forward<decltype(function)>(function),
                           std::move(parameters));
                return errc{};
            } else {
                if (auto result = archive(parameters); failure(result))
                    [[unlikely]] {
                    return value_or_errc<return_type>{result};
                }
                return value_or_errc<return_type>{
                    std::apply(std::forward<decltype(function)>(function),
                               std::move(parameters))};
            }
        }
    } else {''', '''            parameters_type parameters;
            if constexpr (std::is_void_v<return_type>) {
                auto result = archive(parameters);
                std::apply(std::forward<decltype(function)>(function),
                           std::move(parameters));
                return result;
            } else {
                if (auto result = archive(parameters); failure(result))
                    [[unlikely]] {
                    return value_or_errc<return_type>{result};
                }
                return value_or_errc<return_type>{
                    std::apply(std::forward<decltype(function)>(function),
                               std::move(parameters))};
            }
        }
    } else {''')],
     'a function object without result applied to truncated arguments', 'it is called although its parameters could not be read',
     '''    int n = 0; std::vector<std::byte> v(2); in i{v}; auto f = [&](int) { ++n; }; CHECK(failure(apply(f, i))); CHECK(n == 0);''')

seed('unsized-view-position', 'C14', [('''                    container = {m_data.data() + m_position,
                                 size - m_position};
                    m_position = size;''', '''                    container = {m_data.data() + m_position,
                                 size - m_position};''')],
     'an unsized view of constant bytes followed by another read', 'the position does not move',
     '''    std::vector<std::byte> v(6); std::span<const std::byte> s; in i{v}; i(unsized(s)).or_throw(); CHECK(s.size() == 6); CHECK(i.position() == 6);''')
seed('pb-enum-truncated', 'C20', [('''            varint<type> value;
            if (auto result = archive(value); failure(result))
                [[unlikely]] {
                return result;
            }
            item = value;''', '''            varint<type> value;
            (void)archive(value);
            item = value;''')],
     'an enum field whose value is cut off', 'the message is accepted',
     '''    std::vector<std::byte> v; out{v, no_size{}}(std::uint8_t(8)).or_throw(); M m{}; CHECK(failure(in{v, no_size{}}(m)));''',
     pre='enum class E : int { a, b }; struct M { using serialize = pb_protocol; E e; };\n')
seed('opaque-body-id', 'C16', [('''            } else if constexpr (request_binding::opaque) {
                return out(arguments...);;''', '''            } else if constexpr (request_binding::opaque) {
                return out(Id::value, arguments...);;''')],
     'the body of a request to an opaque binding', 'it contains the id',
     '''    std::vector<std::byte> v; in i{v}; out o{v}; using R = rpc<bind_opaque<f, 1>>; R::client c{i, o}; c.request_body<1>(std::uint8_t(7)).or_throw(); CHECK(v.size() == 1);''',
     pre='void f(std::span<std::byte> &) {}\n')
seed('vector-of-custom', 'C25', [('''    if constexpr (members_count < 0) {
        return false;
    } else if constexpr (!std::is_trivially_copyable_v<type>) {
        return false;
    } else if constexpr (has_explicit_serialize<type,
                                                traits::visitor<type>>()) {
        return false;
    } else if constexpr (concepts::empty<type>) {''', '''    if constexpr (members_count < 0) {
        return false;
    } else if constexpr (!std::is_trivially_copyable_v<type>) {
        return false;
    } else if constexpr (concepts::empty<type>) {''')],
     'a container of a trivially copyable type with a serialize function', 'its serialize function is not used for the elements',
     '''    std::vector<std::byte> v; out{v, no_size{}}(std::vector<T>{T{5, 6}}).or_throw(); CHECK(v.size() == 2 && v[0] == std::byte(6));''',
     pre='struct T { std::uint8_t a, b; static constexpr auto serialize(auto & archive, auto & self) { return archive(self.b, self.a); } };\n')
seed('pb-shift-bound', 'C04', [('''                    } else if (move_ahead_count >
                               m_data.size() - current_position)
                        [[unlikely]] {
                        return std::errc::result_out_of_range;
                    }''', '''                    }''')],
     'a nested message longer than 127 bytes that ends at the end of a fixed buffer', 'bytes behind the buffer are written',
     '''    N n; n.m.s = std::string(150, 'x'); std::vector<std::byte> b(156 + 1); out o{std::span{b.data(), 155}, no_size{}}; auto r = o(n); CHECK(failure(r) || o.position() <= 155); CHECK(b[155] == std::byte{});''',
     pre='struct M { using serialize = pb_protocol; std::string s; }; struct N { using serialize = pb_protocol; M m; };\n')
