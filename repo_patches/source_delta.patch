From 2bad38553d1fc0816667c4db6d0d5106cd244cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 01/18] fix: bitset output does not depend on previous buffer
 content

The bits were ORed into whatever the buffer held before, so writing into
a fixed buffer that is not zeroed, or overwriting after a reset, produced
wrong bits.
---
 zpp_bits.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zpp_bits.h b/zpp_bits.h
index 8576f61..385756b 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -2328,6 +2328,7 @@ protected:
         }
 
         auto data = m_data.data() + m_position;
+        std::fill_n(data, size_in_bytes, byte_type{});
         for (std::size_t i = 0; i < size; ++i) {
             auto & value = data[i / CHAR_BIT];
             value = byte_type(static_cast<unsigned char>(value) |
-- 
2.43.0


From 5cd61ef72e5023bcb82927d7d25c4655d25c005f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 02/18] fix: return a result when reading a known id variant

Reading a variant by known id, into an alternative that is not default
constructible, flowed off the end of the function.
---
 zpp_bits.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zpp_bits.h b/zpp_bits.h
index 385756b..12340a9 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -2999,6 +2999,7 @@ private:
                     return result;
                 }
                 variant = std::move(*object);
+                return {};
             }
         } else {
             typename traits::variant<type>::id_type id;
-- 
2.43.0


From 4b4e9083d3a6a3b98aa752f96529e3d8493c33c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 03/18] fix: write the message size prefix in the byte order of
 the archive

The size prefix of a message was always written in native byte order
but read in the byte order of the archive.
---
 zpp_bits.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 12340a9..76a2330 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -2401,10 +2401,14 @@ protected:
                     m_position += move_ahead_count;
                 }
             }
-            return basic_out<std::span<byte_type, sizeof(SizeType)>>{
+            using size_endian = std::conditional_t<endian_aware,
+                                                   endian::swapped,
+                                                   endian::native>;
+            return basic_out<std::span<byte_type, sizeof(SizeType)>,
+                             size_endian>{
                 std::span<byte_type, sizeof(SizeType)>{
-                    m_data.data() + size_position, sizeof(SizeType)}}(
-                SizeType(message_size));
+                    m_data.data() + size_position, sizeof(SizeType)},
+                size_endian{}}(SizeType(message_size));
         } else {
             if constexpr (requires {typename type::serialize;}) {
                 constexpr auto protocol = type::serialize::value;
-- 
2.43.0


From 97555e39e9f5aba88e2212cc6a8d723d2d542f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 04/18] fix: protobuf fixed fields are little endian in any
 archive

With a varint size archive in big endian, messages were written with the
archive itself, and their fixed fields were written in big endian.
---
 zpp_bits.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 76a2330..2a2161b 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -4705,8 +4705,8 @@ struct pb
         using archive_type = typename std::remove_cvref_t<decltype(archive)>;
         if constexpr (!concepts::varint<
                           typename archive_type::default_size_type> ||
-                      ((std::endian::little != std::endian::native) &&
-                       !archive_type::endian_aware)) {
+                      ((std::endian::little != std::endian::native) !=
+                       archive_type::endian_aware)) {
             out out{archive.data(),
                     size_varint{},
                     no_fit_size{},
-- 
2.43.0


From 2c795b2bfed2eee4c85f5ed534b95c04433451f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 05/18] fix: reject messages whose size exceeds the remaining
 data

A message announcing more bytes than remain was silently read from
what was there.
---
 zpp_bits.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zpp_bits.h b/zpp_bits.h
index 2a2161b..a053f89 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -3109,6 +3109,10 @@ private:
                 return result;
             }
 
+            if (size > m_data.size() - m_position) [[unlikely]] {
+                return std::errc::result_out_of_range;
+            }
+
             if constexpr (requires {typename type::serialize;}) {
                 constexpr auto protocol = type::serialize::value;
                 return protocol(*this, item, size);
-- 
2.43.0


From 8a2d4c252bcb57e7eb5d7911c92c44221a3aee2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 06/18] fix: validate the length of packed protobuf fields

The length of a packed field was used for reserving memory without
checking it against the data or the allocation limit, its end position
could wrap around, and a length that does not end on an element boundary
was accepted and the rest of the field misread.
---
 zpp_bits.h | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index a053f89..978440c 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -5129,16 +5129,24 @@ struct pb
                     return result;
                 }
 
+                if constexpr (archive_type::allocation_limit !=
+                              std::numeric_limits<std::size_t>::max()) {
+                    if (length > archive_type::allocation_limit)
+                        [[unlikely]] {
+                        return errc{std::errc::message_size};
+                    }
+                }
+
+                if (length > archive.data().size() - archive.position())
+                    [[unlikely]] {
+                    return errc{std::errc::result_out_of_range};
+                }
+
                 if constexpr (requires { item.resize(1); } &&
                               (std::is_fundamental_v<value_type> ||
                                std::same_as<value_type, std::byte>)) {
-                    if constexpr (archive_type::allocation_limit !=
-                                  std::numeric_limits<
-                                      std::size_t>::max()) {
-                        if (length > archive_type::allocation_limit)
-                            [[unlikely]] {
-                            return errc{std::errc::message_size};
-                        }
+                    if (length % sizeof(value_type)) [[unlikely]] {
+                        return errc{std::errc::protocol_error};
                     }
                     item.resize(length / sizeof(value_type));
                     return archive(unsized(item));
@@ -5155,6 +5163,10 @@ struct pb
                         }
                     }
 
+                    if (archive.position() != end_position) [[unlikely]] {
+                        return errc{std::errc::protocol_error};
+                    }
+
                     return errc{};
                 }
             } else {
-- 
2.43.0


From 0980c354b5e425723e53da7e6ef93b17d0cb075e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:56 +0000
Subject: [PATCH 07/18] fix: keep earlier pieces of packed fixed size protobuf
 fields

A packed repeated field may be split and mixed with unpacked elements.
Every packed piece of fixed size elements overwrote the elements that were
read before, unlike for varint elements.
---
 zpp_bits.h | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 978440c..a57fd8f 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -5148,8 +5148,26 @@ struct pb
                     if (length % sizeof(value_type)) [[unlikely]] {
                         return errc{std::errc::protocol_error};
                     }
-                    item.resize(length / sizeof(value_type));
-                    return archive(unsized(item));
+                    // Multi byte elements are a packed repeated field which
+                    // may come in several pieces, single byte elements are
+                    // a string or bytes of which the last one is taken.
+                    std::size_t offset = 0;
+                    if constexpr (sizeof(value_type) > 1) {
+                        offset = item.size();
+                    }
+                    item.resize(offset + length / sizeof(value_type));
+                    if (!offset) [[likely]] {
+                        return archive(unsized(item));
+                    }
+                    for (auto iterator = std::next(item.begin(), offset);
+                         iterator != item.end();
+                         ++iterator) {
+                        if (auto result = archive(*iterator);
+                            failure(result)) [[unlikely]] {
+                            return result;
+                        }
+                    }
+                    return errc{};
                 } else {
                     if constexpr (requires { item.reserve(1); }) {
                         item.reserve(length);
-- 
2.43.0


From 2075558998869c49276134257b516bfabb2f74e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:56 +0000
Subject: [PATCH 08/18] fix: hash messages whose padding needs another block

sha1 and sha256 did not compile for messages whose length modulo the block
size is between 56 and 63, where the length field needs another block.
---
 zpp_bits.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index a57fd8f..0a170ee 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -5380,7 +5380,8 @@ constexpr auto sha1()
         original_message,
         std::byte{0x80},
         std::array<std::byte,
-                   align(original_message.size() + sizeof(std::byte{0x80}),
+                   align(original_message.size() + sizeof(std::byte{0x80}) +
+                             sizeof(std::uint64_t),
                          chunk_size) -
                        original_message.size() - sizeof(std::byte{0x80}) -
                        sizeof(std::uint64_t{original_message.size()})>{},
@@ -5505,7 +5506,8 @@ constexpr auto sha256()
         original_message,
         std::byte{0x80},
         std::array<std::byte,
-                   align(original_message.size() + sizeof(std::byte{0x80}),
+                   align(original_message.size() + sizeof(std::byte{0x80}) +
+                             sizeof(std::uint64_t),
                          chunk_size) -
                        original_message.size() - sizeof(std::byte{0x80}) -
                        sizeof(std::uint64_t{original_message.size()})>{},
-- 
2.43.0


From 819b9b1bc0dea8efb3b4478db8b6b0e735896900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:56 +0000
Subject: [PATCH 09/18] fix: fit a grown output buffer in every case

A varint reserves its maximal size. With exact_enlarger, or when
overwriting in the middle of the data, the buffer was then left with extra
bytes at its end.
---
 zpp_bits.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 0a170ee..53cf5e1 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -2447,12 +2447,13 @@ public:
 
     ZPP_BITS_INLINE constexpr auto operator()(auto &&... items)
     {
-        if constexpr (resizable && !no_fit_size &&
-                      enlarger != std::tuple{1, 1}) {
+        if constexpr (resizable && !no_fit_size) {
             auto end = m_data.size();
             auto result = serialize_many(items...);
             if (m_position >= end) {
                 m_data.resize(m_position);
+            } else if (m_data.size() > end) [[unlikely]] {
+                m_data.resize(end);
             }
             return result;
         } else {
-- 
2.43.0


From 3220d2f6e74ae742a53e835f93878f7ae255f194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:56 +0000
Subject: [PATCH 10/18] fix: skip unknown and reserved protobuf fields

Only the tag of a field whose number is not declared, or is reserved, was
consumed, and its content was then parsed as tags and fields of the
message.
---
 zpp_bits.h | 42 ++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 53cf5e1..92db100 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -4993,6 +4993,42 @@ struct pb
         return {};
     }
 
+    ZPP_BITS_INLINE constexpr static errc
+    skip_field(auto & archive, wire_type field_type)
+    {
+        std::size_t size{};
+        switch (field_type) {
+        case wire_type::varint: {
+            vuint64_t value;
+            return archive(value);
+        }
+        case wire_type::fixed_64:
+            size = sizeof(std::uint64_t);
+            break;
+        case wire_type::length_delimited: {
+            vsize_t length;
+            if (auto result = archive(length); failure(result))
+                [[unlikely]] {
+                return result;
+            }
+            size = length;
+            break;
+        }
+        case wire_type::fixed_32:
+            size = sizeof(std::uint32_t);
+            break;
+        default:
+            return std::errc::protocol_error;
+        }
+
+        if (size > archive.data().size() - archive.position())
+            [[unlikely]] {
+            return std::errc::result_out_of_range;
+        }
+        archive.position() += size;
+        return {};
+    }
+
     template <std::size_t Index = 0>
     ZPP_BITS_INLINE constexpr static auto
     deserialize_field(auto & archive,
@@ -5005,7 +5041,7 @@ struct pb
             if (!field_num) [[unlikely]] {
                 return errc{std::errc::protocol_error};
             }
-            return errc{};
+            return skip_field(archive, field_type);
         } else if (field_number_from_struct<type, Index>() != field_num) {
             return deserialize_field<Index + 1>(
                 archive, item, field_num, field_type);
@@ -5041,7 +5077,9 @@ struct pb
         using archive_type = std::remove_reference_t<decltype(archive)>;
         static_assert(check_type<type>());
 
-        if constexpr (std::is_enum_v<type>) {
+        if constexpr (concepts::empty<type>) {
+            return skip_field(archive, field_type);
+        } else if constexpr (std::is_enum_v<type>) {
             varint<type> value;
             if (auto result = archive(value); failure(result))
                 [[unlikely]] {
-- 
2.43.0


From d4af94206f230ccc31a42aac221782a5d480b3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:56 +0000
Subject: [PATCH 11/18] fix: the last protobuf map entry of a key is taken

As with any repeated occurrence of a singular field, protobuf takes the
last entry of a map for a key that appears more than once.
---
 zpp_bits.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 92db100..b402727 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -5127,7 +5127,17 @@ struct pb
                 return result;
             }
 
-            item.emplace(std::move(object->key), std::move(object->value));
+            if constexpr (requires {
+                              item.insert_or_assign(
+                                  std::move(object->key),
+                                  std::move(object->value));
+                          }) {
+                item.insert_or_assign(std::move(object->key),
+                                      std::move(object->value));
+            } else {
+                item.emplace(std::move(object->key),
+                             std::move(object->value));
+            }
             return errc{};
         } else {
             using orig_value_type = typename type::value_type;
-- 
2.43.0


From 1f8a3f6fd1f0e4d00b0302759261786e218c79c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:05 +0000
Subject: [PATCH 12/18] fix: write as many elements as the size prefix
 announces

As documented, when the size type is too small for the container less
elements are serialized. The size prefix was reduced but all elements were
still written, making what follows unreadable.
---
 zpp_bits.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index b402727..350e470 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -2209,14 +2209,16 @@ protected:
                                    requires concepts::
                                        has_fixed_nonzero_size<type>;
                                }))) {
-                if (auto result =
-                        serialize_one(static_cast<SizeType>(size));
+                auto serialized_size = static_cast<SizeType>(size);
+                if (auto result = serialize_one(serialized_size);
                     failure(result)) [[unlikely]] {
                     return result;
                 }
+                size = serialized_size;
             }
             return serialize_one(bytes(container, size));
         } else {
+            auto size = container.size();
             if constexpr (!std::is_void_v<SizeType> &&
                           (concepts::associative_container<
                                decltype(container)> ||
@@ -2233,13 +2235,17 @@ protected:
                                    requires concepts::
                                        has_fixed_nonzero_size<type>;
                                }))) {
-                if (auto result = serialize_one(
-                        static_cast<SizeType>(container.size()));
+                auto serialized_size = static_cast<SizeType>(size);
+                if (auto result = serialize_one(serialized_size);
                     failure(result)) [[unlikely]] {
                     return result;
                 }
+                size = serialized_size;
             }
             for (auto & item : container) {
+                if (!size--) [[unlikely]] {
+                    break;
+                }
                 if (auto result = serialize_one(item); failure(result))
                     [[unlikely]] {
                     return result;
-- 
2.43.0


From c3381ddc0469360c11d4eca3570b7fe7d0b81ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:11 +0000
Subject: [PATCH 13/18] fix: let views of constant bytes with a fixed extent be
 read

---
 zpp_bits.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 350e470..9c0dd03 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -2826,18 +2826,17 @@ private:
                            std::same_as<
                                unsigned char,
                                value_type>)&&requires(type container) {
-                              container = {m_data.data(), 1};
+                              container = type{m_data.data(), 1};
                           }) {
                 if constexpr (requires {
                                   requires(type::extent !=
                                            std::dynamic_extent);
-                                  requires concepts::has_fixed_nonzero_size<type>;
                               }) {
                     if (type::extent > m_data.size() - m_position)
                         [[unlikely]] {
                         return std::errc::result_out_of_range;
                     }
-                    container = {m_data.data() + m_position, type::extent};
+                    container = type{m_data.data() + m_position, type::extent};
                     m_position += type::extent;
                 } else if constexpr (std::is_void_v<SizeType>) {
                     auto size = m_data.size();
-- 
2.43.0


From abf7829b140c7e318bd86f1bcc02f3b9e16295a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:37 +0000
Subject: [PATCH 14/18] fix: containers of empty objects write no bytes for
 them

---
 zpp_bits.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zpp_bits.h b/zpp_bits.h
index 9c0dd03..3ddccbb 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -1305,6 +1305,8 @@ constexpr auto access::byte_serializable()
     } else if constexpr (has_explicit_serialize<type,
                                                 traits::visitor<type>>()) {
         return false;
+    } else if constexpr (concepts::empty<type>) {
+        return false;
     } else if constexpr (
         !requires {
             requires std::integral_constant<
-- 
2.43.0


From e9b1c2aed1ed8cf353562f7ac3478938853346cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:10 +0000
Subject: [PATCH 15/18] fix: big endian numbers are ordered by their value

---
 zpp_bits.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 3ddccbb..22ccfa7 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -5402,8 +5402,17 @@ struct big_endian
         return big_endian{left.value | right.value, emplace{}};
     }
 
-    constexpr auto friend operator<=>(big_endian left,
-                                      big_endian right) = default;
+    constexpr bool friend operator==(big_endian left,
+                                     big_endian right) = default;
+
+    constexpr auto friend operator<=>(big_endian left, big_endian right)
+    {
+        // The most significant byte comes first.
+        return std::bit_cast<std::array<unsigned char, sizeof(left)>>(
+                   left) <=>
+               std::bit_cast<std::array<unsigned char, sizeof(right)>>(
+                   right);
+    }
 
     using serialize = members<1>;
 
-- 
2.43.0


From c56c3e3ec654d6e491c125c5c6ebec8b98a02527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 16/18] fix: rpc requests take constant and convertible
 arguments

---
 zpp_bits.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 22ccfa7..a9d445f 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -3923,8 +3923,8 @@ struct rpc_impl
                                     std::declval<parameters_type>()))>>,
                         std::remove_cvref_t<decltype(get<Indices>(
                             std::declval<parameters_type>()))>,
-                        const decltype(get<Indices>(
-                            std::declval<parameters_type>())) &>>(
+                        const std::remove_cvref_t<decltype(get<Indices>(
+                            std::declval<parameters_type>()))> &>>(
                         arguments)...);
             }
         }
@@ -3980,8 +3980,8 @@ struct rpc_impl
                                     std::declval<parameters_type>()))>>,
                         std::remove_cvref_t<decltype(get<Indices>(
                             std::declval<parameters_type>()))>,
-                        const decltype(get<Indices>(
-                            std::declval<parameters_type>())) &>>(
+                        const std::remove_cvref_t<decltype(get<Indices>(
+                            std::declval<parameters_type>()))> &>>(
                         arguments)...);
             }
         }
-- 
2.43.0


From 463fcffa1cf6811cfce5159a3198a2630275e265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 17/18] fix: results of functions returning references can be
 made

---
 zpp_bits.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index a9d445f..11df879 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -3498,11 +3498,18 @@ struct [[nodiscard]] value_or_errc
 
     constexpr value_or_errc() = default;
 
-    constexpr explicit value_or_errc(auto && value) :
+    constexpr explicit value_or_errc(auto && value) requires(
+        !std::is_reference_v<Type>) :
         m_return_value(std::forward<decltype(value)>(value))
     {
     }
 
+    constexpr explicit value_or_errc(Type && value) requires(
+        std::is_reference_v<Type>) :
+        m_return_value(std::addressof(value))
+    {
+    }
+
     constexpr explicit value_or_errc(error_type error) :
         m_error(std::forward<decltype(error)>(error)),
         m_failure(true)
-- 
2.43.0


From c6323c179ebf7f776772194147d0795552ead414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:03 +0000
Subject: [PATCH 18/18] fix: protobuf fields of another wire type than the
 declared one were misread

A field whose wire type differs from that of the declared type was read as
if it had the declared one, which misreads it and everything that follows.
It is now skipped, as protobuf parsers do.
---
 zpp_bits.h | 41 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/zpp_bits.h b/zpp_bits.h
index 11df879..5f9dc35 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -4695,6 +4695,43 @@ struct pb
         }
     }
 
+    // Whether a field of the given type may come with the given wire type,
+    // repeated scalar fields may be packed or not.
+    template <typename Type>
+    constexpr static bool is_wire_type_of(wire_type field_type)
+    {
+        using type = std::remove_cvref_t<Type>;
+        if constexpr (is_pb_field<type>()) {
+            return is_wire_type_of<typename type::pb_field_type>(
+                field_type);
+        } else if constexpr (concepts::empty<type>) {
+            return true;
+        } else if constexpr (concepts::container<type> &&
+                             requires {
+                                 requires concepts::varint<
+                                     typename type::value_type> ||
+                                     std::is_enum_v<
+                                         typename type::value_type> ||
+                                     std::same_as<
+                                         typename type::value_type,
+                                         bool> ||
+                                     std::is_fundamental_v<
+                                         typename type::value_type> &&
+                                         (sizeof(typename type::
+                                                     value_type) == 4 ||
+                                          sizeof(typename type::
+                                                     value_type) == 8);
+                                 requires !std::same_as<
+                                     typename type::value_type,
+                                     std::byte>;
+                             }) {
+            return field_type == wire_type::length_delimited ||
+                   field_type == tag_type<typename type::value_type>();
+        } else {
+            return field_type == tag_type<type>();
+        }
+    }
+
     template <typename Type>
     constexpr static auto make_tag_explicit(auto field_number)
     {
@@ -5091,6 +5128,10 @@ struct pb
         using archive_type = std::remove_reference_t<decltype(archive)>;
         static_assert(check_type<type>());
 
+        if (!is_wire_type_of<type>(field_type)) [[unlikely]] {
+            return skip_field(archive, field_type);
+        }
+
         if constexpr (concepts::empty<type>) {
             return skip_field(archive, field_type);
         } else if constexpr (std::is_enum_v<type>) {
-- 
2.43.0

