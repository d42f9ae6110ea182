From d7cc99cd9ec5ec799f9d222c55028406f54efef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:09 +0000
Subject: [PATCH 01/23] fix: ends_with() returned false when the suffix also
 occurs earlier in the string (C++17)

---
 src/utki/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utki/string.hpp b/src/utki/string.hpp
index 436da6a..0492c2d 100644
--- a/src/utki/string.hpp
+++ b/src/utki/string.hpp
@@ -849,7 +849,7 @@ inline bool ends_with(std::string_view str, std::string_view suffix)
 	if (suffix.size() > str.size()) {
 		return false;
 	}
-	return str.find(suffix) == (str.size() - suffix.size());
+	return str.compare(str.size() - suffix.size(), suffix.size(), suffix) == 0;
 #endif
 }
 
-- 
2.43.0


From 673379484d3dbd85b61a114c392e1585c59a1c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:09 +0000
Subject: [PATCH 02/23] fix: base64_decode() indexed decode table with negative
 values for non-ASCII characters

---
 src/utki/base64.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utki/base64.cpp b/src/utki/base64.cpp
index cd7e9c5..3587267 100644
--- a/src/utki/base64.cpp
+++ b/src/utki/base64.cpp
@@ -58,10 +58,10 @@ std::array<uint8_t, 3> base64_decode_quad(char a, char b, char c, char d)
 {
 	constexpr auto bits_per_char = 6;
 	uint32_t quad = //
-		(decode_table[a] << bits_per_char * 3) | //
-		(decode_table[b] << bits_per_char * 2) | //
-		(decode_table[c] << bits_per_char) | //
-		decode_table[d];
+		(decode_table[uint8_t(a)] << bits_per_char * 3) | //
+		(decode_table[uint8_t(b)] << bits_per_char * 2) | //
+		(decode_table[uint8_t(c)] << bits_per_char) | //
+		decode_table[uint8_t(d)];
 
 	return {
 		uint8_t((quad >> utki::byte_bits * 2) & utki::byte_mask), //
-- 
2.43.0


From 079a34d3b84868fd07ab83daff5b57290798f200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:09 +0000
Subject: [PATCH 03/23] fix: base64_decode() read beyond the end of a string
 having a single trailing character

---
 src/utki/base64.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utki/base64.cpp b/src/utki/base64.cpp
index 3587267..a0f02ef 100644
--- a/src/utki/base64.cpp
+++ b/src/utki/base64.cpp
@@ -120,7 +120,9 @@ std::vector<uint8_t> utki::base64_decode(std::string_view str)
 
 	auto a = *i;
 	i = std::next(i);
-	ASSERT(i != str.end())
+	if (i == str.end()) {
+		throw std::invalid_argument("base64_decode(): malformed base64 string: incomplete last quad");
+	}
 	auto b = *i;
 	i = std::next(i);
 
-- 
2.43.0


From 9a74ed853f7bd72ed49bb7ad59fd3fc469df8d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:09 +0000
Subject: [PATCH 04/23] fix: utf8_iterator read beyond the null terminator of a
 C-string which ends with truncated multi-byte character

---
 src/utki/unicode.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utki/unicode.cpp b/src/utki/unicode.cpp
index 13488bf..94a1520 100644
--- a/src/utki/unicode.cpp
+++ b/src/utki/unicode.cpp
@@ -67,7 +67,7 @@ utf8_iterator& utf8_iterator::operator++() noexcept
 		return *this;
 	}
 
-	if (this->p == this->end) {
+	if (this->p == this->end || (!this->end && *this->p == 0)) {
 		this->c = 0;
 		return *this;
 	}
@@ -83,7 +83,7 @@ utf8_iterator& utf8_iterator::operator++() noexcept
 		 // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
 		 ++this->p)
 	{
-		if (this->p == this->end) {
+		if (this->p == this->end || (!this->end && *this->p == 0)) {
 			this->c = 0;
 			return *this;
 		}
-- 
2.43.0


From f53cb46f4a9d2db4dececdfaaa181c6f59b22d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:09 +0000
Subject: [PATCH 05/23] fix: utf8_iterator shifted 32 bit value by 32 or more
 bits on 0xfe and 0xff bytes

---
 src/utki/unicode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utki/unicode.cpp b/src/utki/unicode.cpp
index 94a1520..0b55ba5 100644
--- a/src/utki/unicode.cpp
+++ b/src/utki/unicode.cpp
@@ -92,7 +92,7 @@ utf8_iterator& utf8_iterator::operator++() noexcept
 		this->c |= (*this->p) & 0x3f; // NOLINT(cppcoreguidelines-avoid-magic-numbers)
 	}
 	// NOLINTNEXTLINE(cppcoreguidelines-avoid-magic-numbers)
-	this->c |= (char32_t(uint8_t(b << (i + 1)) >> (i + 1)) << (6 * (i - 1)));
+	this->c |= char32_t(uint64_t(uint8_t(b << (i + 1)) >> (i + 1)) << (6 * (i - 1)));
 
 	return *this;
 }
-- 
2.43.0


From 8939b7fd23c2ae3f9629a3c3e4345eef833bcb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:09 +0000
Subject: [PATCH 06/23] fix: tree iterator at_level() is documented to throw
 std::out_of_range, but was noexcept

---
 src/utki/tree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utki/tree.hpp b/src/utki/tree.hpp
index 87dd9a0..d028e6e 100644
--- a/src/utki/tree.hpp
+++ b/src/utki/tree.hpp
@@ -474,7 +474,7 @@ private:
 			is_const,
 			const typename collection_type::value_type,
 			typename collection_type::value_type>&
-		at_level(size_t d) noexcept
+		at_level(size_t d)
 		{
 			return *this->iter_stack.at(d);
 		}
@@ -485,7 +485,7 @@ private:
 		 * @return Reference to the tree node this iterator points to on the requested tree level.
 		 * @throw std::out_of_range - in case the requested tree level is higher than the iterator depth.
 		 */
-		const typename collection_type::value_type& at_level(size_t d) const noexcept
+		const typename collection_type::value_type& at_level(size_t d) const
 		{
 			return *this->iter_stack.at(d);
 		}
-- 
2.43.0


From 7ea5df50e08a9982ae2e4f4c7c33ae49e4b99ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:09 +0000
Subject: [PATCH 07/23] fix: overlaps() dereferenced iterators of an empty span
 and returned true

---
 src/utki/span.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utki/span.hpp b/src/utki/span.hpp
index a467095..0628364 100644
--- a/src/utki/span.hpp
+++ b/src/utki/span.hpp
@@ -489,7 +489,7 @@ public:
 template <typename element_type>
 bool overlaps(const span<element_type>& s, typename span<element_type>::const_pointer p)
 {
-	return (&*s.begin()) <= p && p <= (&*std::prev(s.end()));
+	return !s.empty() && (&*s.begin()) <= p && p <= (&*std::prev(s.end()));
 }
 
 template <typename lhs_element_type, typename rhs_element_type>
-- 
2.43.0


From 69992c709bb055200a516b084b253a60b7232c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:09 +0000
Subject: [PATCH 08/23] fix: signal::emit() moved by-value arguments to the
 first callback, leaving others with moved-from values

---
 src/utki/signal.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/utki/signal.hpp b/src/utki/signal.hpp
index 33d8c0e..89259db 100644
--- a/src/utki/signal.hpp
+++ b/src/utki/signal.hpp
@@ -52,6 +52,18 @@ public:
 private:
 	std::list<callback_type> callbacks;
 
+	// Pass emit() argument to a callback such that the value remains intact for the rest of the callbacks.
+	// Only arguments which cannot be copied are moved to the callback.
+	template <typename arg_type>
+	static decltype(auto) pass_arg(std::remove_reference_t<arg_type>& a) noexcept
+	{
+		if constexpr (!std::is_reference_v<arg_type> && std::is_copy_constructible_v<arg_type>) {
+			return (a);
+		} else {
+			return static_cast<arg_type&&>(a);
+		}
+	}
+
 public:
 	~signal()
 	{
@@ -93,7 +105,7 @@ public:
 	void emit(args_type... a)
 	{
 		for (const auto& c : this->callbacks) {
-			c(std::forward<args_type>(a)...);
+			c(pass_arg<args_type>(a)...);
 		}
 	}
 
-- 
2.43.0


From e07f679b936d6d954a38926b01411b6663f71d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:09 +0000
Subject: [PATCH 09/23] fix: exception::to_string() ignored the indentation
 argument

---
 src/utki/exception.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utki/exception.cpp b/src/utki/exception.cpp
index 3ea4512..88369b7 100644
--- a/src/utki/exception.cpp
+++ b/src/utki/exception.cpp
@@ -42,9 +42,9 @@ using namespace std::string_literals;
 
 using namespace utki;
 
-std::string exception::to_string(std::string_view) const
+std::string exception::to_string(std::string_view indentation) const
 {
-	return utki::to_string(static_cast<const std::exception&>(*this));
+	return utki::to_string(static_cast<const std::exception&>(*this), indentation);
 }
 
 std::string utki::current_exception_to_string(std::string_view indentation)
-- 
2.43.0


From b38ae6732599253f09e763b02e17eb652d0cb0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:09 +0000
Subject: [PATCH 10/23] fix: make_indentation() length overflowed 32 bits

---
 src/utki/string.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utki/string.cpp b/src/utki/string.cpp
index cd582c7..247f210 100644
--- a/src/utki/string.cpp
+++ b/src/utki/string.cpp
@@ -496,5 +496,5 @@ std::string utki::make_indentation(unsigned depth, unsigned size)
 		return std::string(depth, '\t');
 	}
 	// NOLINTNEXTLINE(modernize-return-braced-init-list)
-	return std::string(size_t(depth * size), ' ');
+	return std::string(size_t(depth) * size, ' ');
 }
-- 
2.43.0


From 48da69aba4d8278a0b2db423e49ac9ca2b8d4c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:09 +0000
Subject: [PATCH 11/23] fix: enum_iterable reverse iteration did not compile

---
 src/utki/enum_iterable.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/utki/enum_iterable.hpp b/src/utki/enum_iterable.hpp
index 8341f35..4ea9daf 100644
--- a/src/utki/enum_iterable.hpp
+++ b/src/utki/enum_iterable.hpp
@@ -79,11 +79,18 @@ public:
 			this->e = enum_type(std::underlying_type_t<enum_type>(this->e) + 1);
 			return *this;
 		}
+
+		constexpr iterator& operator--() noexcept
+		{
+			this->e = enum_type(std::underlying_type_t<enum_type>(this->e) - 1);
+			return *this;
+		}
 	};
 
 	using const_iterator = iterator;
 
 	using reverse_iterator = std::reverse_iterator<iterator>;
+	using const_reverse_iterator = reverse_iterator;
 
 	constexpr size_t size() const noexcept
 	{
-- 
2.43.0


From b392f81c7a565173bd89ba7001ff3f5618863d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:23 +0000
Subject: [PATCH 12/23] fix: converting an exception having empty
 std::nested_exception to string terminated the program

---
 src/utki/exception.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/utki/exception.cpp b/src/utki/exception.cpp
index 88369b7..3fe011c 100644
--- a/src/utki/exception.cpp
+++ b/src/utki/exception.cpp
@@ -66,6 +66,10 @@ std::string utki::current_exception_to_string(std::string_view indentation)
 	try {
 		throw;
 	} catch (std::nested_exception& nested) {
+		if (!nested.nested_ptr()) {
+			// calling rethrow_nested() would terminate the program
+			return ss.str();
+		}
 		try {
 			nested.rethrow_nested();
 		} catch (std::exception& e) {
@@ -86,6 +90,11 @@ std::string utki::to_string(const std::exception& e, std::string_view indentatio
 	std::stringstream ss;
 	ss << indentation << demangle(typeid(e)) << ": " << e.what();
 
+	if (auto nested = dynamic_cast<const std::nested_exception*>(&e); nested && !nested->nested_ptr()) {
+		// calling std::rethrow_if_nested() would terminate the program
+		return ss.str();
+	}
+
 	try {
 		std::rethrow_if_nested(e);
 	} catch (std::exception& nested) {
-- 
2.43.0


From 82e05e6a0baa2a1fd43698e962f6120524cf7556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:59 +0000
Subject: [PATCH 13/23] fix: traversal::make_const_iterator() did not compile
 for non-const collection

---
 src/utki/tree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utki/tree.hpp b/src/utki/tree.hpp
index d028e6e..21e879e 100644
--- a/src/utki/tree.hpp
+++ b/src/utki/tree.hpp
@@ -536,8 +536,8 @@ private:
 	{
 		iterator_internal<is_const> ret;
 
-		auto* list = &this->roots;
-		auto iter = this->roots.begin();
+		typename iterator_internal<is_const>::list_type* list = &this->roots;
+		auto iter = list->begin();
 
 		for (auto i : index) {
 			ret.list_stack.push_back(list);
-- 
2.43.0


From fc866c519a3f35886e9d666e47b36188950d80da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:59 +0000
Subject: [PATCH 14/23] fix: traversal::operator[] did not compile for const
 collection

---
 src/utki/tree.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utki/tree.hpp b/src/utki/tree.hpp
index 21e879e..faa7df7 100644
--- a/src/utki/tree.hpp
+++ b/src/utki/tree.hpp
@@ -670,7 +670,7 @@ public:
 	 * @param index - index of the tree element.
 	 * @return reference to the tree elemenet referred by index.
 	 */
-	typename collection_type::value_type& operator[](utki::span<const size_type> index)
+	reference operator[](utki::span<const size_type> index)
 	{
 		ASSERT(this->is_valid(index))
 		// TODO: rewrite without creating iterator, for more performance
@@ -694,7 +694,7 @@ public:
 	 * @param index - index of the tree element.
 	 * @return reference to the tree elemenet referred by index.
 	 */
-	typename collection_type::value_type& operator[](const std::vector<size_t>& index)
+	reference operator[](const std::vector<size_t>& index)
 	{
 		return this->operator[](utki::make_span(index));
 	}
@@ -714,7 +714,7 @@ public:
 	 * @param index - index of the tree element.
 	 * @return reference to the tree elemenet referred by index.
 	 */
-	typename collection_type::value_type& operator[](std::initializer_list<size_t> index)
+	reference operator[](std::initializer_list<size_t> index)
 	{
 		return this->operator[](std::vector<size_t>(index));
 	}
-- 
2.43.0


From 6d70208c467b1437d02bcca68b6004b80e455ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:50 +0000
Subject: [PATCH 15/23] fix: current_exception_to_string() lost messages and
 causes of exceptions derived from std::exception

---
 src/utki/exception.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utki/exception.cpp b/src/utki/exception.cpp
index 3fe011c..e6827a0 100644
--- a/src/utki/exception.cpp
+++ b/src/utki/exception.cpp
@@ -65,6 +65,10 @@ std::string utki::current_exception_to_string(std::string_view indentation)
 
 	try {
 		throw;
+	} catch (exception& e) {
+		return e.to_string(indentation);
+	} catch (std::exception& e) {
+		return to_string(e, indentation);
 	} catch (std::nested_exception& nested) {
 		if (!nested.nested_ptr()) {
 			// calling rethrow_nested() would terminate the program
-- 
2.43.0


From 94ae93203f52436945ab4ef6de8b4e5e3c40eed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:57 +0000
Subject: [PATCH 16/23] fix: failed assertion did not abort the program when
 printing of its message threw an exception

---
 src/utki/debug.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/utki/debug.cpp b/src/utki/debug.cpp
index 6c2bd78..073da32 100644
--- a/src/utki/debug.cpp
+++ b/src/utki/debug.cpp
@@ -83,7 +83,12 @@ void utki::assert_always(
 
 	if (print) {
 		ss << ":" << std::endl << "  ";
-		print(ss);
+		try {
+			print(ss);
+		} catch (...) {
+			// the exception must not prevent the program from being aborted
+			ss << "<exception was thrown while printing assertion information>";
+		}
 	}
 
 #if CFG_OS_NAME == CFG_OS_NAME_ANDROID
@@ -92,8 +97,13 @@ void utki::assert_always(
 
 	__android_log_assert(ss.str().c_str(), "utki", nullptr);
 #else
-	std::cerr << ss.str() << std::endl;
-	std::cerr.flush();
+	try {
+		std::cerr << ss.str() << std::endl;
+		std::cerr.flush();
+		// NOLINTNEXTLINE(bugprone-empty-catch)
+	} catch (...) {
+		// the exception must not prevent the program from being aborted
+	}
 #endif
 
 	abort();
-- 
2.43.0


From b4a52033bf0144ef7f829b5d3dbcbfb95f500f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:55 +0000
Subject: [PATCH 17/23] fix: sort() recursion depth was proportional to the
 number of elements for some inputs

---
 src/utki/sort.hpp | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/utki/sort.hpp b/src/utki/sort.hpp
index 0aeec12..dafd030 100644
--- a/src/utki/sort.hpp
+++ b/src/utki/sort.hpp
@@ -97,19 +97,26 @@ constexpr forward_iter_type partition(forward_iter_type first, forward_iter_type
 template <class random_iter_type, class comparator_type = std::less<>>
 constexpr void quick_sort(random_iter_type first, random_iter_type last, comparator_type cmp = comparator_type{})
 {
-	auto const n = utki::sort_internal::distance(first, last);
-	if (n <= 1) {
-		return;
+	while (utki::sort_internal::distance(first, last) > 1) {
+		auto const n = utki::sort_internal::distance(first, last);
+		auto const pivot = *utki::sort_internal::next(first, n / 2);
+		auto const middle1 = utki::sort_internal::partition(first, last, [=](auto const& elem) {
+			return cmp(elem, pivot);
+		});
+		auto const middle2 = utki::sort_internal::partition(middle1, last, [=](auto const& elem) {
+			return !cmp(pivot, elem);
+		});
+
+		// Recurse only into the smaller part and go on with the bigger one,
+		// otherwise depth of recursion could be as big as the number of elements.
+		if (utki::sort_internal::distance(first, middle1) < utki::sort_internal::distance(middle2, last)) {
+			quick_sort(first, middle1, cmp); // assert(std::is_sorted(first, middle1, cmp));
+			first = middle2;
+		} else {
+			quick_sort(middle2, last, cmp); // assert(std::is_sorted(middle2, last, cmp));
+			last = middle1;
+		}
 	}
-	auto const pivot = *utki::sort_internal::next(first, n / 2);
-	auto const middle1 = utki::sort_internal::partition(first, last, [=](auto const& elem) {
-		return cmp(elem, pivot);
-	});
-	auto const middle2 = utki::sort_internal::partition(middle1, last, [=](auto const& elem) {
-		return !cmp(pivot, elem);
-	});
-	quick_sort(first, middle1, cmp); // assert(std::is_sorted(first, middle1, cmp));
-	quick_sort(middle2, last, cmp); // assert(std::is_sorted(middle2, last, cmp));
 }
 
 } // namespace sort_internal
-- 
2.43.0


From 53d170cd6666f6d88c102dc2bc387c162982c70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:08 +0000
Subject: [PATCH 18/23] fix: linq where() passed moved elements to functors
 which take argument by value, result elements were left moved-from

---
 src/utki/linq.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/utki/linq.hpp b/src/utki/linq.hpp
index 735ce50..d1e8b8e 100644
--- a/src/utki/linq.hpp
+++ b/src/utki/linq.hpp
@@ -173,7 +173,11 @@ public:
 			std::make_move_iterator(this->collection.begin()),
 			std::make_move_iterator(this->collection.end()),
 			std::inserter(ret, ret.end()),
-			func
+			// the functor may take its argument by value, pass it as const reference
+			// so that the element is not moved to the functor's argument
+			[&func](const value_type& v) {
+				return func(v);
+			}
 		);
 
 		return linq_collection_aggregator<decltype(ret)&&>(std::move(ret));
-- 
2.43.0


From 3eee0f6e0ff1ad2b664849a35f1caa173ec444dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:01 +0000
Subject: [PATCH 19/23] fix: split() to words depended on the global C locale
 and passed negative values to std::isspace() for non-ASCII characters

---
 src/utki/string.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/utki/string.cpp b/src/utki/string.cpp
index 247f210..80591c3 100644
--- a/src/utki/string.cpp
+++ b/src/utki/string.cpp
@@ -29,7 +29,6 @@ SOFTWARE.
 #include "string.hpp"
 
 #include <array>
-#include <cctype> // for std::isspace()
 #include <cstdarg> // for varargs
 
 #include <fast_float/fast_float.h>
@@ -144,7 +143,7 @@ std::vector<std::string> utki::split(std::string_view str)
 	};
 
 	for (auto c : str) {
-		if (std::isspace(c)) {
+		if (string_parser::is_space(c)) {
 			add_str();
 			continue;
 		}
-- 
2.43.0


From 8720e36e8f9fda6fb7075cbcc266e2ec68298262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:21 +0000
Subject: [PATCH 20/23] fix: trim functions threw std::bad_cast for strings of
 char16_t, char32_t and char8_t

---
 src/utki/string.hpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/utki/string.hpp b/src/utki/string.hpp
index 0492c2d..aa34a47 100644
--- a/src/utki/string.hpp
+++ b/src/utki/string.hpp
@@ -681,6 +681,21 @@ std::string to_string(
 	);
 }
 
+namespace string_internal {
+// std::isspace() needs std::ctype<char_type> facet, which is only there for char and wchar_t
+template <typename char_type>
+constexpr bool is_space(char_type c) noexcept
+{
+	return //
+		c == char_type(' ') || //
+		c == char_type('\n') || //
+		c == char_type('\t') || //
+		c == char_type('\r') || //
+		c == char_type('\v') || //
+		c == char_type('\f');
+}
+} // namespace string_internal
+
 /**
  * @brief Trim whitespaces from front of the string.
  * @tparam element_type - string element type.
@@ -697,7 +712,7 @@ std::basic_string_view<element_type> trim_front(std::basic_string_view<element_t
 				s.begin(),
 				s.end(),
 				[](auto c) {
-					return !std::isspace(c, std::locale::classic());
+					return !utki::string_internal::is_space(c);
 				}
 			)
 		)
@@ -742,7 +757,7 @@ std::basic_string_view<element_type> trim_back(std::basic_string_view<element_ty
 				s.rbegin(),
 				s.rend(),
 				[](auto c) {
-					return !std::isspace(c, std::locale::classic());
+					return !utki::string_internal::is_space(c);
 				}
 			).base()
 		)
-- 
2.43.0


From 7184cabe9e649128744b4d1337a726551b1917d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:13 +0000
Subject: [PATCH 21/23] fix: cat(), join(), to_utf8() and exception
 descriptions silently lost the rest of the text when memory ran out

---
 src/utki/exception.cpp | 4 ++++
 src/utki/exception.hpp | 2 ++
 src/utki/string.hpp    | 4 ++++
 src/utki/unicode.cpp   | 2 ++
 4 files changed, 12 insertions(+)

diff --git a/src/utki/exception.cpp b/src/utki/exception.cpp
index e6827a0..e09ffa0 100644
--- a/src/utki/exception.cpp
+++ b/src/utki/exception.cpp
@@ -54,6 +54,8 @@ std::string utki::current_exception_to_string(std::string_view indentation)
 	}
 
 	std::stringstream ss;
+	// out of memory must be reported with exception, otherwise the rest of the text would be silently lost
+	ss.exceptions(std::ios_base::badbit);
 	ss << indentation <<
 #if CFG_COMPILER == CFG_COMPILER_GCC || CFG_COMPILER == CFG_COMPILER_CLANG
 		demangle(*abi::__cxa_current_exception_type());
@@ -92,6 +94,8 @@ std::string utki::current_exception_to_string(std::string_view indentation)
 std::string utki::to_string(const std::exception& e, std::string_view indentation)
 {
 	std::stringstream ss;
+	// out of memory must be reported with exception, otherwise the rest of the text would be silently lost
+	ss.exceptions(std::ios_base::badbit);
 	ss << indentation << demangle(typeid(e)) << ": " << e.what();
 
 	if (auto nested = dynamic_cast<const std::nested_exception*>(&e); nested && !nested->nested_ptr()) {
diff --git a/src/utki/exception.hpp b/src/utki/exception.hpp
index 13c82d7..f65f384 100644
--- a/src/utki/exception.hpp
+++ b/src/utki/exception.hpp
@@ -110,6 +110,8 @@ public:
 	std::string to_string(std::string_view indentation = std::string_view()) const override
 	{
 		std::stringstream ss;
+		// out of memory must be reported with exception, otherwise the rest of the text would be silently lost
+		ss.exceptions(std::ios_base::badbit);
 		ss << indentation << utki::to_string(static_cast<const std::exception&>(this->nesting));
 
 		try {
diff --git a/src/utki/string.hpp b/src/utki/string.hpp
index aa34a47..b9c4d46 100644
--- a/src/utki/string.hpp
+++ b/src/utki/string.hpp
@@ -242,6 +242,8 @@ std::basic_string<typename strings_collection_type::value_type::value_type> join
 	}
 
 	std::basic_stringstream<typename strings_collection_type::value_type::value_type> ss;
+	// out of memory must be reported with exception, otherwise the rest of the text would be silently lost
+	ss.exceptions(std::ios_base::badbit);
 	ss << strings.front();
 
 	for (const auto& s : utki::skip_front<1>(strings)) {
@@ -262,6 +264,8 @@ template <typename... streamable_type>
 std::string cat(const streamable_type&... s)
 {
 	std::stringstream ss;
+	// out of memory must be reported with exception, otherwise the rest of the text would be silently lost
+	ss.exceptions(std::ios_base::badbit);
 
 	// NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-array-to-pointer-decay, "false positive")
 	[[maybe_unused]] auto& stream = (ss << ... << s);
diff --git a/src/utki/unicode.cpp b/src/utki/unicode.cpp
index 0b55ba5..1aa0a3f 100644
--- a/src/utki/unicode.cpp
+++ b/src/utki/unicode.cpp
@@ -182,6 +182,8 @@ utki::to_utf8(char32_t c)
 std::string utki::to_utf8(utki::span<const char32_t> str)
 {
 	std::stringstream ss;
+	// out of memory must be reported with exception, otherwise the rest of the text would be silently lost
+	ss.exceptions(std::ios_base::badbit);
 
 	for (auto c : str) {
 		auto buf = to_utf8(c);
-- 
2.43.0


From ddbeb01623075d59382223b68e54b2974b1d2832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:25 +0000
Subject: [PATCH 22/23] fix: assignment of a tree node from a node of the same
 tree

---
 src/utki/tree.hpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/utki/tree.hpp b/src/utki/tree.hpp
index faa7df7..17c67c0 100644
--- a/src/utki/tree.hpp
+++ b/src/utki/tree.hpp
@@ -73,10 +73,25 @@ public:
 	container_type children;
 
 	tree(const tree&) = default;
-	tree& operator=(const tree&) = default;
-
 	tree(tree&&) = default;
-	tree& operator=(tree&&) = default;
+
+	/**
+	 * @brief Assign a tree node.
+	 * The assigned node can belong to the same tree as this one, e.g. be one of the children of this node.
+	 * The argument is taken by value, because otherwise the source node could be changed or
+	 * destroyed in the middle of the assignment along with the old contents of this node.
+	 * @param t - tree node to assign.
+	 * @return reference to this tree node.
+	 */
+	tree& operator=(tree t) noexcept( //
+		std::is_nothrow_move_assignable_v<element_type> && //
+		std::is_nothrow_move_assignable_v<container_type>
+	)
+	{
+		this->value = std::move(t.value);
+		this->children = std::move(t.children);
+		return *this;
+	}
 
 	~tree() = default;
 
-- 
2.43.0


From 622b22d2e6b3545f8216177770659ae957969bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:25 +0000
Subject: [PATCH 23/23] fix: what() invalidated the text given earlier and was
 not safe to call from several threads

---
 src/utki/exception.hpp | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/utki/exception.hpp b/src/utki/exception.hpp
index f65f384..1fe8225 100644
--- a/src/utki/exception.hpp
+++ b/src/utki/exception.hpp
@@ -84,29 +84,32 @@ class stacked_exception : public exception
 	std::nested_exception nested;
 	exception_type nesting;
 
-	mutable std::string description;
+	// Made on construction, because the string returned by what() has to remain valid as long as the
+	// exception object is not changed, and because several threads can use the same exception object at the same time.
+	std::string description;
 
 	stacked_exception(exception_type nesting) :
 		nesting(std::move(nesting))
-	{}
-
-	template <typename same_exception_type>
-	friend void utki::throw_with_nested(same_exception_type exception);
-
-public:
-	const char* what() const noexcept override
 	{
 		try {
 			this->description =
 				utki::cat(std::string_view("exception stack:\n"), this->to_string(std::string_view("- ")));
-			return this->description.c_str();
 		} catch (std::bad_alloc&) {
-			return "std::bad_alloc";
+			this->description = "std::bad_alloc";
 		} catch (...) {
-			return "error";
+			this->description = "error";
 		}
 	}
 
+	template <typename same_exception_type>
+	friend void utki::throw_with_nested(same_exception_type exception);
+
+public:
+	const char* what() const noexcept override
+	{
+		return this->description.c_str();
+	}
+
 	std::string to_string(std::string_view indentation = std::string_view()) const override
 	{
 		std::stringstream ss;
@@ -114,6 +117,11 @@ public:
 		ss.exceptions(std::ios_base::badbit);
 		ss << indentation << utki::to_string(static_cast<const std::exception&>(this->nesting));
 
+		if (!this->nested.nested_ptr()) {
+			// calling rethrow_nested() would terminate the program
+			return ss.str();
+		}
+
 		try {
 			this->nested.rethrow_nested();
 		} catch (exception& e) {
-- 
2.43.0

