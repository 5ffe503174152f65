SEEDS = {}
def seed(i, prop, edits, needs, breaks, demo, **k): SEEDS[i] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **k)

seed('target-kept-long', 'C01', [('''                }
                container.resize(size);
            } else if constexpr (is_const''', '''                }
                if constexpr (requires { container.reserve(size); }) {
                    if (size > container.size()) {
                        container.resize(size);
                    }
                } else {
                    container.resize(size);
                }
            } else if constexpr (is_const''')],
     'a vector or string of byte-serializable elements read into a target that is longer than the stored one',
     'the target keeps its old length and its old trailing elements',
     '''    std::vector<std::byte> d; out{d}(std::string("ab"), std::vector<int>{1, 2}).or_throw();
    std::string s = "something longer"; std::vector<int> v{5, 6, 7};
    in i{d}; CHECK(success(i(s, v))); CHECK(s == "ab"); CHECK((v == std::vector<int>{1, 2}));''')
seed('enlarge-wrap', 'C06', [('if (new_size / multiplier != required_size) [[unlikely]] {', 'if (new_size < required_size) [[unlikely]] {')],
     'a buffer size whose enlargement wraps around to something above the required size',
     'the buffer is resized to a wrapped size instead of the write failing',
     '''    B b; b.n = std::size_t(-1) / 4 + 8; out o{b, no_fit_size{}, append{}, enlarger<6>{}};
    auto r = o(std::uint64_t{}); CHECK(b.m == 0);
    CHECK(r == std::errc::no_buffer_space);''',
     pre='''struct B { using value_type = std::byte; std::size_t n = 0, m = 0; std::byte a[64]; std::byte * data() { return (std::byte *)((std::uintptr_t)a - n); }
    const std::byte * data() const { return const_cast<B *>(this)->data(); }
    std::byte * begin() { return data(); } std::byte * end() { return data() + n; } std::byte & operator[](std::size_t i) { return data()[i]; }
    std::size_t size() const { return n; } void resize(std::size_t k) { m = k; n = k; std::printf("resized to %zu\\n", k); std::exit(1); } };
''')
seed('array-last-result', 'C13', [('''            for (auto & item : array) {
                if (auto result = serialize_one(item); failure(result))
                    [[unlikely]] {
                    return result;
                }
            }
            return {};
        }
    }

    template <typename SizeType = default_size_type>
    ZPP_BITS_INLINE constexpr errc
    serialize_one(concepts::container auto && container)
    {
        using type = std::remove_cvref_t<decltype(container)>;
        using value_type = typename type::value_type;

        if constexpr''', '''            errc result{};
            for (auto & item : array) {
                result = serialize_one(item);
            }
            return result;
        }
    }

    template <typename SizeType = default_size_type>
    ZPP_BITS_INLINE constexpr errc
    serialize_one(concepts::container auto && container)
    {
        using type = std::remove_cvref_t<decltype(container)>;
        using value_type = typename type::value_type;

        if constexpr''')],
     'an array one of whose elements, not the last, cannot be written', 'the failure of an element is forgotten when later elements are written',
     '''    std::unique_ptr<int> a[3]{std::make_unique<int>(1), nullptr, std::make_unique<int>(3)};
    std::vector<std::byte> d; out o{d}; CHECK(o(a) == std::errc::invalid_argument); CHECK(d.size() == 4);''')
seed('limit-not-first', 'C26', [('''        return std::remove_cvref_t<Option>::alloc_limit_value;
    } else if constexpr (sizeof...(Options) != 0) {''', '''        return std::remove_cvref_t<Option>::alloc_limit_value;
    } else if constexpr (sizeof...(Options) > 1) {''')],
     'an allocation limit given as the last of several options', 'the allocation limit is ignored',
     '''    std::vector<std::byte> d; out o{d, endian::big{}, alloc_limit<8>{}};
    CHECK(o(std::string(100, 'x')) == std::errc::no_buffer_space); CHECK(d.size() <= 8);''')
seed('moved-result-leak', 'C29', [('''            m_failure = other.m_failure;
            std::memcpy''', '''            m_failure = true;
            std::memcpy'''), ('''                    m_return_value = other.m_return_value;
                }
            }
        } else {''', '''                    m_return_value = other.m_return_value;
                }
            }
            other.m_failure = true;
        } else {''')],
     'a result holding a counted object that is moved', 'the object left in the moved-from result is never destroyed',
     '''    { value_or_errc<C> a{C{1}}; value_or_errc<C> b{std::move(a)}; CHECK(b.success()); CHECK(b.value().n == 1); } CHECK(alive == 0);''',
     pre='''int alive; struct C { int n; C(int n) : n(n) { ++alive; } C(C && o) noexcept : n(o.n) { ++alive; } ~C() { --alive; } };
''')
seed('view-size-wraps', 'C03', [('''                if (size > m_data.size() - m_position) [[unlikely]] {
                    return std::errc::result_out_of_range;
                }
                container = {m_data''', '''                if (m_position + size > m_data.size()) [[unlikely]] {
                    return std::errc::result_out_of_range;
                }
                container = {m_data''')],
     'a view read with eight byte sizes whose announced length is close to the largest', 'the sum wraps around and a view far beyond the buffer is made',
     '''    std::vector<std::byte> d; out{d}(std::uint64_t(-4), 0).or_throw();
    std::span<const std::byte> s; in i{d, size8b{}}; CHECK(i(s) == std::errc::result_out_of_range); CHECK(i.position() <= d.size());''')
seed('limit-wraps', 'C07', [('''                    constexpr auto limit =
                        allocation_limit / sizeof(value_type);
                    if (size > limit) [[unlikely]] {''', '''                    if (size * sizeof(value_type) > allocation_limit) [[unlikely]] {''')],
     'an eight byte size prefix whose product with the element size wraps around', 'the allocation limit is passed by an enormous announced size',
     '''    std::vector<std::byte> d; out{d}(std::uint64_t(1) << 61, 0).or_throw();
    std::vector<std::uint64_t> v; in i{d, size8b{}, alloc_limit<100>{}};
    try { CHECK(i(v) == std::errc::message_size); } catch (...) { return 1; } CHECK(v.empty());''')
seed('pb-long-exact-fit', 'C04', [('''                    } else if (move_ahead_count >
                               m_data.size() - current_position)''', '''                    } else if (move_ahead_count >=
                               m_data.size() - current_position)''')],
     'a protobuf message longer than 127 bytes written to a fixed buffer that it fills exactly', 'the write fails although there is room',
     '''    M m; m.s = std::string(200, 'x'); std::vector<std::byte> d; out{d, size_varint{}}(m).or_throw();
    std::vector<std::byte> e(d.size()); out o{std::span{e}, size_varint{}}; CHECK(success(o(m))); CHECK(e == d);''',
     pre='struct M { using serialize = pb_protocol; std::string s; };\n')
seed('null-shared-written', 'C11', [('''        if (nullptr == pointer) [[unlikely]] {
            return std::errc::invalid_argument;
        }

        return serialize_one(*pointer);''', '''        if (nullptr == pointer) [[unlikely]] {
            if constexpr (requires { pointer.use_count(); }) {
                return {};
            } else {
                return std::errc::invalid_argument;
            }
        }

        return serialize_one(*pointer);''')],
     'a null shared pointer', 'writing a null shared pointer succeeds without writing anything',
     '''    std::vector<std::byte> d; out o{d}; CHECK(o(std::shared_ptr<int>{}) == std::errc::invalid_argument);''')
seed('multimap-emplace', 'C23', [('''                    return result;
                }

                container.insert(std::move(*object));
            } else {
                using value_type = typename type::value_type;
''', '''                    return result;
                }

                if (container.find(object->first) == container.end()) {
                    container.insert(std::move(*object));
                }
            } else {
                using value_type = typename type::value_type;
''')],
     'a multimap with two elements of the same key', 'only one element per key is restored',
     '''    std::multimap<int, int> a{{1, 2}, {1, 3}, {2, 4}}, b; std::vector<std::byte> d; out{d}(a).or_throw(); in{d}(b).or_throw(); CHECK(a == b);''')
